"""P26 initialisation from common planes: PlaneReg, all visibility patterns and random histories"""
import preggens as G
def check(ctx):
    ctx.build('pc')
    for label, planes, k in (('three planes', G.PL[:3], {2, 3}), ('means on a line', G.LINE, ctx.q({2}, {2, 3})), ('four planes', G.PL[1:5], ctx.q({2}, {2, 3})), ('line and one more', G.LINE + [G.PL[1]], {2})):
        c = G.consts(planes=planes, NPoses=k, Sampling=False)
        c['Motions'] = c['Motions'][:2] + ctx.rng.sample(c['Motions'][2:], 1)
        r = ctx.tlc('PlaneReg', 'all visibility patterns, ' + label, spec='VisSpec', consts=c, invariants=G.INV, properties=G.PROP, action_constraints=['EmitInit'], workers=8)
        items = r.items if len(r.items) < ctx.q(3000, 10**6) else ctx.rng.sample(r.items, 3000)
        ctx.replay('planereg', items, dict(keys=['init', 'first', 'crash', 'hang']), label='visibility patterns, ' + label)
    G.random(ctx, ctx.q(900, 15000), ['init', 'first', 'crash', 'hang'], 'initialisations', planes=G.PL + G.LINE, NPoses={2, 3, 4, 5}, OpSet={'add', 'addfull', 'see', 'last', 'reset', 'init'})
