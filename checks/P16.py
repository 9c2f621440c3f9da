"""P16 node states: NodeStates, exhaustive on short histories and random on long ones"""
import rigidgens as rg, factorgens as fg
from tlc import simulate
def tables(rng, n, full):
    i = lambda m=9: rng.randint(-m, m)
    gs = fg.GS if full else fg.GS[:5]
    p2 = [dict(x=i(), y=i(), g=fg.red(g)) for g in gs]
    p3 = rg.elements([(q, *t) for q, t in zip(fg.QS, fg.TS * 3)])[:n]
    l2 = [[0, 0]] + [[i(), i()] for _ in range(n)]; l3 = [[0, 0, 0]] + [[i(), i(), i()] for _ in range(n)]
    pl = [dict(n=list(v), m=m, d=i()) for v, m in fg.NORMALS[:n]]
    vals = dict(P2=fg.uniq(p2), P3=fg.uniq(p3), L2=fg.uniq(l2), L3=fg.uniq(l3), PL=fg.uniq(pl))
    pl2 = [dict(n=list(v), m=m, d=i(), s=rng.choice([1, 2])) for v, m in fg.NORMALS[:n]]
    inc = dict(vals, PL=fg.uniq(pl2), P3=fg.uniq(p3 + rg.elements(fg.SMALLMOVES)), P2=fg.uniq(p2 + [dict(x=0, y=0, g=[-1, 0]), dict(x=1, y=1, g=[12, -1])]))
    return vals, inc
def check(ctx):
    ctx.build('fgraph')
    K = {'P2', 'P3', 'L2', 'L3', 'PL'}
    v, c = tables(ctx.rng, ctx.q(2, 3), False)
    r = ctx.tlc('NodeStates', 'NodeStates exhaustive', consts=dict(Kinds=K, Vals=v, Incs=c, MaxLen=4, MaxCoord=1000, Sampling=False),
                view='View', invariants=['Manifold'], properties=['Independent'], action_constraints=['EmitEach'])
    items = r.items if len(r.items) < 20000 else ctx.rng.sample(r.items, 20000)
    ctx.replay('nodes', items, label='nodes (exhaustive)')
    v, c = tables(ctx.rng, 8, True)
    r = simulate('NodeStates', ctx.q(4000, 60000), depth=60, seed=ctx.seed, consts=dict(Kinds=K, Vals=v, Incs=c, MaxLen=16, MaxCoord=100000, Sampling=True))
    ctx.account('NodeStates simulation', r)
    ctx.replay('nodes', r.items, label='nodes (random behaviours)')
