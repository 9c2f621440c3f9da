"""Catalogue and configurations of the LieWords specification (P02, P03)"""
from tlc import simulate
AXES = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (0, 1, 1), (0, -1, 1), (1, 0, 1), (-1, 0, 1), (1, 1, 1), (-1, 1, 1), (1, -1, -1), (1, 2, 3), (-3, 1, 2), (100, 1, 0), (1, 0, -1000), (5, 5, 4)]
ANGLES = ([(0, 1, 0, 0)] + [(0, 1, 1, e) for e in range(1, 13)] +
          [(0, 1, s, e) for s, e in ((9, 6), (11, 6), (2, 5), (9, 4), (11, 4), (49, 4), (51, 4), (2, 2), (3, 1), (7, 1), (2, 1), (12, 1), (13, 1), (5, 4))] +
          [(1, 2, 0, 0)] + [(1, 2, s, e) for s in (1, -1) for e in (1, 3, 5, 8, 10)] +
          [(1, 3, 0, 0), (2, 3, 0, 0), (3, 4, 0, 0), (9, 10, 0, 0)] +
          [(1, 1, 0, 0)] + [(1, 1, s, e) for s in (1, -1) for e in range(1, 13)] + [(1, 1, s, 8) for s in (5, -5, 7, -7, 30, -30)] +
          [(2, 1, 0, 0), (3, 1, 0, 0), (5, 2, 0, 0)] + [(2, 1, s, e) for s in (1, -1) for e in (1, 3, 6, 9)] + [(7, 5, 0, 0), (101, 7, 0, 0), (30, 1, 1, 2)])
TRANS = [(0, 0, 0, 0), (1, -2, 3, 0), (0, 0, 1, 0), (3, 1, -1, -6), (-2, 5, 1, 4), (2, -1, 1, -8)]
def consts(**kw):
    c = dict(NReg=1, MaxLen=2, MaxWord=1, Axes=AXES, Angles=ANGLES, Trans=TRANS, Powers={1, 2, -2, 4}, OpSet={'exp'}, Sampling=False)
    c.update(kw)
    return c
def opts(c): return {'axes': c['Axes'], 'angles': c['Angles'], 'trans': c['Trans']}
def sweep(ctx, powers):
    c = consts(Powers=powers)
    r = ctx.tlc('LieWords', 'LieWords sweep of the catalogue', spec='SweepSpec', consts=c, invariants=['TypeOK', 'Laws', 'PrincipalLaw'])
    ctx.replay('lie', r.items, opts(c), label='lie (sweep)')
def exhaustive(ctx, ops, length):
    c = consts(NReg=2, MaxLen=length, MaxWord=3, Axes=[(1, 0, 0), (1, -1, 0)], Angles=[(1, 2, 0, 0), (1, 1, -1, 5)], Trans=[(1, 2, -3, 0)], Powers={2, -1}, OpSet=ops)
    r = ctx.tlc('LieWords', 'LieWords exhaustive, laws', consts=c, view='View', invariants=['TypeOK', 'Laws', 'PrincipalLaw'], action_constraints=['EmitEach'])
    ctx.replay('lie', r.items, opts(c), label='lie (exhaustive)')
def random(ctx, ops, num, length=16):
    c = consts(NReg=4, MaxLen=length, MaxWord=4, Powers={1, 2, -2, 3, 4, -1}, OpSet=ops, Sampling=True)
    r = simulate('LieWords', num, depth=length * 4, seed=ctx.seed, consts=c)
    ctx.account('LieWords simulation', r)
    ctx.replay('lie', r.items, opts(c), label='lie (random)')
