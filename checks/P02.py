"""P02 exponential and logarithm: LieWords (symbolic angles) and the lattice of RigidGroup"""
import liegens, rigidgens
def check(ctx):
    ctx.build('geometry')
    liegens.sweep(ctx, ctx.q({2, -1}, {1, 2, -2, 3, 4, -1, 7}))
    liegens.exhaustive(ctx, {'exp', 'mul', 'inv', 'ln', 'regen'}, ctx.q(3, 4))
    liegens.random(ctx, {'exp', 'mul', 'inv', 'regen', 'ln', 'updr'}, ctx.q(1500, 20000))
    rigidgens.random(ctx, {'load', 'exp', 'ln', 'regen', 'mul', 'inv'}, nreg=3, length=20, num=ctx.q(600, 6000))
    bigquats(ctx)

def bigquats(ctx):
    """logarithms of single rotations with large integer quaternions: angles down to 1e-4 and up to pi - 1e-4 about many axes"""
    rng = ctx.rng
    qs = []
    for n in range(ctx.q(400, 3000)):
        small, big = rng.choice([1, 2, 3, 7]), rng.choice([20, 100, 1000, 5000])
        ax = [rng.randint(-small, small) for _ in range(3)]
        if not any(ax): ax[rng.randrange(3)] = 1
        if n % 2: q = [big] + ax
        else:
            a = [rng.randint(-big, big) if rng.random() < .7 else rng.choice([0, big, -big]) for _ in range(3)]
            if not any(a): a = [big, big, 0]
            q = [rng.choice([0, 1, 1, 2, small])] + a
        qs.append(tuple(q))
    gs = [(q, t, 1) for q, t in zip(qs, [(0, 0, 0), (1, -2, 3), (0, 5, 0)] * (len(qs)))]
    r = ctx.tlc('RigidGroup', 'RigidGroup single large quaternions', spec='CatalogueSpec',
                consts=dict(NReg=1, MaxLen=2, MaxSize=2000000000, Gens=rigidgens.elements(gs), Points=rigidgens.points(), OpSet={'load'}, Sampling=False))
    ctx.replay('rigid', r.items, label='rigid (large quaternions)')
