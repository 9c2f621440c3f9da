from tlc import simulate
import rigidgens as rg
INV = ['NoInvention']
PROP = ['EstimateComplete', 'IncrementalComplete', 'QueriesPure', 'NoLoss']
def poses(rng, n):
    q = [(1, 0, 0, 0), (1, 1, 0, 0), (0, 0, 1, 0), (2, 1, 0, -1), (3, 0, 1, 1), (1, 1, 1, 0), (5, 0, 0, 1), (1, 0, -2, 1)]
    t = [(0, 0, 0), (1, 0, 0), (0, -2, 1), (3, 1, -2), (-1, 4, 2)]
    return rg.elements([((1, 0, 0, 0), (0, 0, 0), 1)] + [(q[i % len(q)], rng.choice(t), rng.choice([1, 2])) for i in range(1, n)])
def exhaustive(ctx, ops, length):
    ps = poses(ctx.rng, 8)
    r = ctx.tlc('PlaneLandmark', 'PlaneLandmark exhaustive', consts=dict(NT=2, Points=[[1, 0, 2], [0, -3, 1]], Poses=[ps[0], ps[3]], MaxPts=2, MaxLen=length, OpSet=ops, Sampling=False),
                invariants=INV, properties=PROP, view='View', action_constraints=['EmitEach'])
    items = r.items if len(r.items) < 30000 else ctx.rng.sample(r.items, 30000)
    ctx.replay('landmark', items, dict(nt=2), label='landmark (all short histories)')
def random(ctx, ops, num, length, keys=None):
    i = lambda m: ctx.rng.randint(-m, m)
    for nt in ctx.q((1, 3), (1, 2, 3, 5)):
        flat = [[i(5), i(5), 2] for _ in range(12)]
        pts = flat + [[x[0], x[1], 3] for x in flat[:3]] + [[i(6), i(6), i(6)] for _ in range(4)]
        if nt == 1 or ctx.tier != 'quick': pts += [[1, 2, 0], [-1, -2, 0], [2, -1, 0], [-2, 1, 0], [1, 1, 1], [1, 1, -1], [-1, -1, 1], [-1, -1, -1]] * 2        # planes through the origin
        r = simulate('PlaneLandmark', num, depth=3 * length, seed=ctx.seed + nt, invariants=INV,
                     consts=dict(NT=nt, Points=pts, Poses=poses(ctx.rng, 9), MaxPts=8, MaxLen=length, OpSet=ops, Sampling=True))
        ctx.account('PlaneLandmark simulation, %d times' % nt, r)
        ctx.replay('landmark', r.items, dict(nt=nt, keys=keys), label='landmark (random)')
