"""P15 generic optimiser control"""
import dampedgens as dg
def check(ctx):
    ctx.build('fgraph')
    M = {'spher', 'ellip', 'newton'}
    dg.live(ctx, M)
    dg.exhaustive(ctx, M, {1, 2, 9}, ctx.q(3, 4))
    drop = [o for o in dg.OUT if not (o['kind'] == 'eps' or o['kind'] == 'tol' and 0 <= o['n'] < o['d'])]
    dg.random(ctx, ctx.q(2500, 20000), M, {1, 3, 6, 8, 100}, 12, 3, seed=1)
    dg.random(ctx, ctx.q(2500, 20000), M, {4, 6, 8, 12}, 24, 3, drop, seed=2)
