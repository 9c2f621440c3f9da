"""P09 assembled linear system"""
import graphgens as gg
def check(ctx):
    ctx.build('fgraph')
    K = ['system', 'weight']
    gg.exhaustive(ctx, {'node', 'factor', 'solve'}, K, {'P2', 'L2'}, {'F1P2', 'F2P2', 'F1L2'}, {0}, 3, ctx.q(2, 3), ctx.q(6, 7))
    ops = {'node', 'factor', 'solve', 'set', 'chi2', 'lm'}
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N2, gg.F2, label='2D', seed=1)
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N3, gg.F3, label='3D', seed=2)
    gg.random(ctx, ctx.q(600, 10000), ops, K, nodes=10, factors=16, length=34, label='mixed', seed=3)
    for i, rb in enumerate(ctx.q([0, 2], [0, 1, 2, 3, 4])):
        gg.random(ctx, ctx.q(500, 4000), ops - {'set'}, K, robusts={rb}, label='kernel %d, both APIs' % rb, seed=4 + i)
    gg.random(ctx, ctx.q(24, 300), {'node', 'factor', 'solve', 'chi2'}, K, nodes=40, factors=70, length=120, label='large', seed=31)
