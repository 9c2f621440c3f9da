"""P11 anchors"""
import graphgens as gg
def check(ctx):
    ctx.build('fgraph')
    K = ['anchor', 'step', 'system', 'dense', 'chi2', 'lm']
    ops = {'node', 'factor', 'solve', 'lm', 'chi2'}
    gg.exhaustive(ctx, {'node', 'factor', 'solve', 'lm'}, K, {'P2', 'L2'}, {'F1P2', 'F2P2', 'F1L2'}, {0}, 3, 2, ctx.q(6, 7), dense=True)
    gg.random(ctx, ctx.q(700, 8000), ops | {'set'}, K, gg.N2, gg.F2, dense=True, label='2D', seed=1)
    gg.random(ctx, ctx.q(700, 8000), ops | {'set'}, K, gg.N3, gg.F3, dense=True, label='3D', seed=2)
    gg.random(ctx, ctx.q(600, 8000), ops, K, robusts={0}, dense=True, label='mixed, all solvers', seed=3)
    gg.random(ctx, ctx.q(600, 8000), ops, K, nodes=9, factors=14, length=32, robusts={0}, dense=True, label='larger', seed=4)
