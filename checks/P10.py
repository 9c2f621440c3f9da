"""P10 Gauss-Newton step"""
import graphgens as gg
def check(ctx):
    ctx.build('fgraph')
    K = ['step', 'order']
    ops = {'node', 'factor', 'solve', 'set'}
    gg.exhaustive(ctx, {'node', 'factor', 'solve'}, K, {'P3', 'L3'}, {'F1P3', 'F2P3', 'F1L3'}, {0}, 3, ctx.q(2, 3), ctx.q(6, 7), shuffle=True)
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N2, gg.F2, shuffle=True, label='2D', seed=1)
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N3, gg.F3, shuffle=True, label='3D', seed=2)
    gg.random(ctx, ctx.q(500, 5000), ops, K, {'P2', 'L3', 'P3'}, {'F1P2', 'F2P2', 'F1L3'}, robusts={0}, shuffle=True, label='linear problems', seed=3)
    gg.random(ctx, ctx.q(600, 10000), ops | {'lm', 'chi2'}, K, nodes=10, factors=16, length=34, shuffle=True, label='mixed', seed=4)
    gg.random(ctx, ctx.q(400, 4000), (ops | {'look'}) - {'set'}, K, robusts={0}, label='both APIs', seed=5)
    gg.random(ctx, ctx.q(24, 300), {'node', 'factor', 'solve', 'chi2'}, K, nodes=40, factors=70, length=120, label='large', seed=32)
