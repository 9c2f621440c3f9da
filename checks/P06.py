"""P06 registry of nodes and factors"""
import graphgens as gg
def check(ctx):
    ctx.build('fgraph')
    K = ['registry', 'refuse', 'release']
    gg.exhaustive(ctx, {'node', 'factor', 'eigen', 'look'}, K, {'P2', 'L2'}, {'F1P2', 'F2P2', 'F1L2'}, {0}, 2, 2, ctx.q(5, 6), anchors={False})
    gg.exhaustive(ctx, {'node', 'factor', 'look', 'bad', 'destroy'}, K, {'P2', 'L2'}, {'F1P2', 'F2P2', 'F1L2'}, {0}, 3, 2, ctx.q(5, 6))
    ops = {'node', 'factor', 'look', 'bad', 'destroy', 'solve', 'set', 'lm'}
    gg.random(ctx, ctx.q(120, 1500), {'node', 'factor', 'eigen', 'detach', 'look', 'solve'}, K, nodes=4, factors=14, length=40, label='crowded nodes, detaching', seed=11)
    gg.random(ctx, ctx.q(4, 20), {'node', 'look', 'bad'}, K, nodes=310, factors=0, length=621, label='many nodes', seed=12)
    gg.random(ctx, ctx.q(4, 20), {'node', 'look', 'factor'}, K, {'P2', 'L2'}, {'F1P2', 'F2P2', 'F1L2'}, nodes=7, factors=270, length=420, label='many factors', seed=13)
    gg.random(ctx, ctx.q(1200, 12000), ops, K, nodes=8, factors=14, length=30, label='mixed', seed=1)
    gg.random(ctx, ctx.q(600, 6000), ops | {'eigen', 'chi2'}, K, nodes=6, factors=10, length=30, label='eigen factors', seed=9)
    for i, rb in enumerate(ctx.q([0, 3], [0, 1, 2, 3, 4])):
        gg.random(ctx, ctx.q(500, 4000), ops - {'set'}, K, robusts={rb}, nodes=8, factors=14, length=30, label='kernel %d' % rb, seed=2 + i)
