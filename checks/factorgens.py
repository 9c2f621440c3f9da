"""Configurations of FactorModel shared by P07, P08 and P18"""
import math
from tlc import simulate, Raw
import rigidgens as rg
ALL = {'F1P2', 'F2P2', 'ODO', 'F1L2', 'F1P3', 'F1P3s', 'F2P3', 'F2P3s', 'F1L3', 'F1PL', 'PT2PL'}
def red(g):
    k = math.gcd(*g); return [g[0] // k, g[1] // k]
GS = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (-1, -1), (3, 4), (-3, 4), (-4, -3), (2, -1), (-5, 1), (-12, 1), (-12, -1), (9, 1), (1, -7)]
NORMALS = [((0, 0, 1), 1), ((1, 0, 0), 1), ((0, -1, 0), 1), ((1, 2, 2), 3), ((-2, 1, 2), 3), ((2, -3, 6), 7), ((0, 3, -4), 5), ((4, 4, -7), 9)]
QS = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 0, 0, -1), (0, 0, 1, 0), (0, 1, 1, 0), (1, 1, 1, 1), (1, -1, 1, 0), (2, 1, 0, 0), (3, 1, 0, 1), (2, 0, -1, 0), (5, 0, 1, 0), (1, 3, 0, 0), (0, 1, -1, 1)]
TS = [((0, 0, 0), 1), ((1, 0, 0), 1), ((0, -2, 1), 1), ((3, 1, -2), 2), ((-5, 4, 3), 1), ((0, 0, 7), 1)]
SMALLMOVES = [((12, 1, 0, 0), (0, 0, 0), 1), ((1, 0, 0, 0), (1, -1, 0), 8), ((2, 0, 1, 0), (0, 1, 0), 2), ((1, 0, 0, 1), (0, 0, 1), 1)]
def catalogues(rng, n):
    """n: size of the random part of each catalogue"""
    def i(m=6): return rng.randint(-m, m)
    def g(): return red(rng.choice(GS)) if rng.random() < 0.6 else red((rng.choice([-5, -3, -2, -1, 1, 2, 3]), i(5)))
    def pick(xs, m): return xs if m is None or len(xs) <= m else rng.sample(xs, m)
    p2 = [dict(x=0, y=0, g=[1, 0], k=0), dict(x=1, y=-2, g=[-1, 0], k=0), dict(x=2, y=1, g=[0, 1], k=1), dict(x=-3, y=1, g=[-12, -1], k=0), dict(x=1, y=-2, g=[-12, 1], k=0)]
    p2 += [dict(x=i(), y=i(), g=g(), k=rng.choice([0, 0, 0, 1, -1])) for _ in range(n)]
    l2 = [dict(x=0, y=0), dict(x=-2, y=0), dict(x=1, y=-2), dict(x=3, y=4)] + [dict(x=i(), y=i()) for _ in range(n)]
    p3 = [rg.element(q, t, w) for q, (t, w) in zip(QS, TS * 3)] + [rg.element(rng.choice(QS), *rng.choice(TS)) for _ in range(n)]
    l3 = [dict(p=[0, 0, 0], w=1), dict(p=[1, 2, 3], w=1), dict(p=[-3, 1, 5], w=2), dict(p=[0, 0, -4], w=1)] + [dict(p=[i(), i(), i()], w=1) for _ in range(n // 2)]
    pl = [dict(n=list(nv), m=m, d=i(9), e=rng.choice([1, 2, 4])) for nv, m in NORMALS] + [dict(n=[2 * x for x in NORMALS[3][0]], m=6, d=3, e=1), dict(n=[0, 0, -1], m=1, d=-2, e=1)]
    def t(): return [i(), rng.choice([1, 2, 4]), 1]
    o2 = [dict(x=[0, 1, 1], y=[0, 1, 1], g=[1, 0], k=0), dict(x=[1, 1, 1], y=[0, 1, 1], g=[0, 1], k=0), dict(x=[-1, 2, 1], y=[3, 1, 1], g=[-1, 0], k=0), dict(x=[2, 1, 1], y=[1, 1, 1], g=[-12, 1], k=0)]
    o2 += [dict(x=t(), y=t(), g=g(), k=rng.choice([0, 0, 1, -1])) for _ in range(n)]
    od = [dict(g1=[1, 0], d=1, g2=[1, 0], k=0), dict(g1=[0, 1], d=2, g2=[0, -1], k=0)] + [dict(g1=g(), d=i(5), g2=g(), k=rng.choice([0, 1, -1])) for _ in range(n)]
    ol = [dict(r=[1, 1, 1], g=[1, 0], k=0), dict(r=[5, 1, 1], g=[0, -1], k=0), dict(r=[3, 2, 1], g=[-1, 0], k=0)] + [dict(r=[rng.randint(1, 9), 1, 1], g=g(), k=rng.choice([0, 1, -1])) for _ in range(n)]
    pt = [dict(x=[i(), i(), i()], y=[i(), i(), i()], n=list(nv), m=m) for nv, m in NORMALS[:6]]
    return dict(P2s=p2, L2s=l2, P3s=p3, L3s=l3, PLs=pl, O2s=o2, ODOs=od, OL2s=ol, Pts=pt, Infos=[1, 2, 3], Moves=rg.elements(SMALLMOVES))
def uniq(xs):
    out = []
    for x in xs:
        if x not in out: out.append(x)
    return out
def sweep(ctx, kinds, only):
    """every combination of small catalogues"""
    c = {k: uniq(v) for k, v in catalogues(ctx.rng, 1).items()}
    m = ctx.q(5, 8)
    for k in c:
        if k not in ('Moves', 'Infos'): c[k] = c[k][:2] + ctx.rng.sample(c[k][2:], min(len(c[k]) - 2, m - 2))
    c['Infos'] = [1]
    r = ctx.tlc('FactorModel', 'FactorModel sweep', spec='SweepSpec', consts=dict(Kinds=kinds, Sampling=False, **c), workers=8,
                invariants=['ZeroIffAgree', 'OrderFree', 'InitAgrees'], action_constraints=['EmitEval'], view=None)
    ctx.replay('factors', r.items, dict(keys=only), label='factors (sweep)')
def random(ctx, kinds, num, only):
    c = {k: uniq(v) for k, v in catalogues(ctx.rng, 14).items()}
    r = simulate('FactorModel', num, depth=40, seed=ctx.seed, consts=dict(Kinds=kinds, Sampling=True, **c))
    ctx.account('FactorModel simulation', r)
    ctx.replay('factors', r.items, dict(keys=only), label='factors (random behaviours)')
