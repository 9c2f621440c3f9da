"""P05 compounding of uncertain poses: PoseCov"""
from rigidgens import element
from tlc import simulate
QS = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 0, -1, 0), (1, 0, 0, 1), (1, 1, 1, 1), (0, 1, 1, 0), (0, 0, 0, 1), (1, -1, 1, 1), (2, 1, 0, 0), (1, 1, 1, 0)]
TS = [((0, 0, 0), 1), ((1, -2, 3), 1), ((0, 4, 0), 1), ((-3, 1, 1), 2)]
def covs(rng, n):
    """symmetric integer matrices: zero, diagonal, block diagonal, rank one with mixed signs, full"""
    res = [[[0] * 6 for _ in range(6)]]
    diag = lambda d: [[d[i] if i == j else 0 for j in range(6)] for i in range(6)]
    res += [diag([1] * 6), diag([1, 2, 3, 4, 5, 6]), diag([0, 0, 0, 1, 2, 3]), diag([3, 1, 2, 0, 0, 0])]
    res.append([[1 if abs(i - j) in (0, 3) else 0 for j in range(6)] for i in range(6)])
    while len(res) < n:
        m = [[0] * 6 for _ in range(6)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            v = [rng.randint(-2, 2) for _ in range(6)]
            for i in range(6):
                for j in range(6): m[i][j] += v[i] * v[j]
        res.append(m)
    return res
def check(ctx):
    ctx.build('geometry')
    allops = {'load', 'c2', 'c4', 'c2m', 'c4m', 'mul', 'star', 'copy'}
    base = dict(NReg=3, MaxLen=1, MaxS=30000, MaxT=400, Covs=covs(ctx.rng, ctx.q(12, 24)), OpSet=allops, Sampling=False)
    gens = [element(q, *TS[(i + 1) % 4]) for i, q in enumerate(QS[:ctx.q(5, 10)])] + [element(QS[0], *TS[0]), element(QS[1], *TS[0])]
    c = dict(base, Gens=gens if ctx.tier == 'thorough' else gens[1:4] + gens[-2:], Covs=base['Covs'][:ctx.q(8, 16)], OpSet={'c2', 'c4', 'c2m', 'c4m', 'mul', 'star'})
    r = ctx.tlc('PoseCov', 'PoseCov all pairs of the catalogue', spec='PairSpec', consts=c)
    ctx.replay('posecov', r.items, label='posecov pairs')
    c = dict(base, NReg=2, MaxLen=ctx.q(2, 3), MaxS=300, Gens=gens[1:3], Covs=base['Covs'][5:8], OpSet={'load', 'c2', 'c4', 'star'})
    r = ctx.tlc('PoseCov', 'PoseCov exhaustive, laws', consts=c, view='View', invariants=['Symmetric', 'CertainLaw', 'MoveLaw', 'FourthSymmetricLaw'], action_constraints=['EmitEach'])
    ctx.replay('posecov', r.items, label='posecov exhaustive')
    c = dict(base, NReg=4, MaxLen=12, Gens=[element(q, *t) for q in QS for t in TS], Sampling=True)
    r = simulate('PoseCov', ctx.q(800, 8000), depth=80, seed=ctx.seed, consts=c)
    ctx.account('PoseCov simulation', r)
    ctx.replay('posecov', r.items, label='posecov random')
