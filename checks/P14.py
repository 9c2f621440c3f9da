"""P14 dense solver agrees with the sparse one (both agree with the specification)"""
import graphgens as gg
def check(ctx):
    ctx.build('fgraph')
    K = ['dense', 'step', 'system', 'anchor', 'chi2']
    ops = {'node', 'factor', 'solve', 'chi2', 'set'}
    gg.exhaustive(ctx, {'node', 'factor', 'solve'}, K, {'P3', 'PL'}, {'F1P3', 'F2P3', 'F1PL'}, {0}, 3, ctx.q(2, 3), ctx.q(6, 7), dense=True)
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N2, gg.F2, robusts={0}, dense=True, label='2D', seed=1)
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N3, gg.F3, robusts={0}, dense=True, label='3D', seed=2)
    gg.random(ctx, ctx.q(800, 10000), ops | {'lm'}, K, robusts={0}, nodes=10, factors=16, length=34, dense=True, label='mixed', seed=3)
