"""P04 conversions and predicates: Conversions (every case exact) and RigidGroup (quaternions of every element)"""
import rigidgens, P02
QUATS = [list(q) for q in rigidgens.QS]
HEAD = [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (-4, 3), (-5, -12), (15, -8), (24, 7)]
VECS = [(0, 0, 0), (1, 0, 0), (0, -1, 0), (0, 0, 1), (1, 2, 3), (-7, 5, 11), (100, -3, 2)]
def check(ctx):
    ctx.build('geometry')
    base = dict(Headings=HEAD, Turns={0}, Quats=QUATS, Vecs=VECS, Exps={1, 2, 3, 4, 8, 9, 12})
    for kind, inv in (('rpy', ['RpyLaw', 'Emit']), ('hat', ['Hats', 'Emit']), ('mod', ['Emit']), ('pert', ['Emit']), ('nan', ['Emit'])):
        c = dict(base, Kind=kind)
        if kind == 'rpy': c['Turns'] = ctx.q({0, 1}, {-3, -1, 0, 1, 5})
        if kind in ('pert',): c['Quats'] = QUATS[:ctx.q(12, 36)]
        r = ctx.tlc('Conversions', 'Conversions ' + kind, consts=c, invariants=inv, workers=1)
        ctx.replay('conv', r.items, label='conv ' + kind)
    rigidgens.random(ctx, {'load', 'mul', 'inv', 'quat', 'valid'}, nreg=3, length=20, num=ctx.q(600, 6000))
    P02.bigquats(ctx)
