"""P17 reported error"""
import graphgens as gg
def check(ctx):
    ctx.build('fgraph')
    K = ['chi2']
    ops = {'node', 'factor', 'solve', 'chi2', 'set'}
    gg.exhaustive(ctx, {'node', 'factor', 'solve', 'chi2', 'set'}, K, {'P2', 'L2'}, {'F1P2', 'F1L2'}, {0}, 2, 2, ctx.q(6, 7))
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N2, gg.F2, dense=True, label='2D', seed=1)
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N3, gg.F3, dense=True, label='3D', seed=2)
    gg.random(ctx, ctx.q(600, 8000), ops | {'lm'}, K, nodes=8, factors=14, length=34, robusts={0}, dense=True, label='mixed', seed=3)
    for i, rb in enumerate(ctx.q([1, 4], [0, 1, 2, 3, 4])):
        gg.random(ctx, ctx.q(400, 4000), ops - {'set'}, K, robusts={rb}, label='kernel %d, both APIs' % rb, seed=4 + i)
