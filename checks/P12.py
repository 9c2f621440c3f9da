"""P12 sparse Levenberg-Marquardt control"""
import dampedgens as dg
def check(ctx):
    ctx.build('fgraph')
    dg.live(ctx, {'sparse'})
    dg.exhaustive(ctx, {'sparse'}, {1, 2, 3, 9}, ctx.q(3, 4))
    drop = [o for o in dg.OUT if not (o['kind'] == 'eps' or o['kind'] == 'tol' and 0 <= o['n'] < o['d'])]     # long runs: mostly not converging
    dg.random(ctx, ctx.q(2000, 20000), {'sparse'}, {1, 3, 6, 8, 20}, 12, 3, seed=1)
    dg.random(ctx, ctx.q(2000, 20000), {'sparse'}, {4, 6, 8, 12, 20}, 24, 3, drop, seed=2)
    traces(ctx, ctx.q(500, 6000))

def traces(ctx, num):
    """the other direction: damped solves of real graphs, recorded and checked against the control"""
    import graphgens as gg, json
    from tlc import simulate
    tr = []
    for i, (nk, fk) in enumerate(((gg.N2, gg.F2), (gg.N3, gg.F3))):
        r = simulate('GraphModel', num, depth=20, seed=ctx.seed + 700 + i, consts=dict(NKinds=nk, FKinds=fk, Robusts={0, 1, 2, 3}, MaxNodes=5, MaxFactors=9, MaxLen=15,
                     OpSet={'node', 'factor', 'solve'}, Anchors={True, False}, Sampling=True))
        ctx.account('GraphModel simulation', r)
        # the graph as it was at the last solve: well posed
        items = []
        for h in r.items:
            last = max([k for k, x in enumerate(h) if x['op'] == 'solve'], default=None)
            if last is not None: items.append(h[:last])
        tr += [(h, d) for h, d in zip(items, ctx.collect('lmtrace', items)) if d]
    r = ctx.tlc('DampedTrace', consts={}, files={'traces.json': json.dumps([d for _, d in tr])})
    for x in r.items:
        h, d = tr[x['t'] - 1]
        ctx.mismatch('trace', 'recorded damped solve not explained: step %d of %s (expected exponent %d)' % (x['l'] + 1, d, x['e']), item=h)
    ctx.validated += len(tr)
    ctx.extra['recorded_traces'] = len(tr)
    ctx.extra['recorded_steps'] = sum(len(d['steps']) for _, d in tr)
    ctx.log('%d recorded solves (%d steps, %d rejected steps), %d not explained' % (len(tr), ctx.extra['recorded_steps'], sum(s['class'] == 'worse' for _, d in tr for s in d['steps']), len(r.items)))
