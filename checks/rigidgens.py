"""Configurations of the RigidGroup specification shared by P01, P03 and P04"""
import math
from tlc import Raw, simulate
LAWS = ['TypeOK', 'InverseLaw', 'NeutralLaw', 'AssocLaw', 'ActionLaw', 'HomLaw', 'AdjLaw']
SMALL = [((1, 1, 0, 0), (1, 0, 0), 1), ((0, 1, 1, 0), (0, 2, -1), 1), ((1, 1, 1, 0), (0, 0, 1), 1)]
# all kinds of axes (coordinate, diagonal with ties of either sign, generic), quarter, third, half turns, small and almost half turns
QS = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, -1), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1),
      (0, 1, 1, 0), (0, 1, -1, 0), (0, 0, 1, 1), (0, 0, 1, -1), (0, 1, 0, 1), (0, -1, 0, 1), (0, 1, 1, 1), (0, 1, -1, 1), (0, -1, 1, 1),
      (1, 1, 1, 1), (1, -1, 1, 1), (1, 1, 1, 0), (1, 1, -1, 0), (1, 0, 1, 1), (2, 1, 0, 0), (3, 1, 0, 0), (3, 0, 1, 1), (1, 3, 0, 0),
      (5, 1, -1, 2), (2, -1, 3, 1), (1, 2, 3, 4), (0, 1, 2, 2), (0, 2, -1, 3), (9, 1, 0, 1), (1, 5, 2, -3), (2, 5, 5, 0), (12, 1, 1, 1), (1, 0, 12, 3), (1, 7, -7, 7)]
TS = [((0, 0, 0), 1), ((1, 0, 0), 1), ((0, -2, 1), 1), ((3, 1, -2), 2), ((-5, 4, 7), 3), ((0, 0, 11), 1), ((40, -30, 5), 1)]
POINTS = [(1, 2, 3), (-2, 0, 1), (0, 0, 0), (100, -3, 7)]
def gens(qs, ts):
    return [(q, t, w) for n, q in enumerate(qs) for (t, w) in (ts[n % len(ts)], ts[(3 * n + 1) % len(ts)])]
def element(q, t, w):
    g = math.gcd(*q)
    q = [x // g for x in q]
    if next(x for x in q if x) < 0: q = [-x for x in q]
    h = math.gcd(w, *t)
    return {'q': q, 't': [x // h for x in t], 'w': w // h}
def elements(gs): return [element(*g) for g in gs]
def points(ps=POINTS):
    return Raw('<<' + ', '.join('<<%s>>' % ','.join(map(str, p)) for p in ps) + '>>')
def exhaustive(ctx, ops, nreg, length, size, gs=SMALL):
    r = ctx.tlc('RigidGroup', 'RigidGroup exhaustive, laws', consts=dict(NReg=nreg, MaxLen=length, MaxSize=size, Gens=elements(gs), Points=points(POINTS[:2]), OpSet=ops, Sampling=False),
                view='View', invariants=LAWS, action_constraints=['EmitEach'])
    ctx.replay('rigid', r.items, label='rigid (exhaustive)')
def random(ctx, ops, nreg, length, num, size=600, gs=None):
    gs = gs or gens(QS, TS)
    r = simulate('RigidGroup', num, depth=length * 3, seed=ctx.seed, consts=dict(NReg=nreg, MaxLen=length, MaxSize=size, Gens=elements(gs), Points=points(), OpSet=ops, Sampling=True))
    ctx.account('RigidGroup simulation', r)
    ctx.replay('rigid', r.items, label='rigid (random behaviours)')
