"""P13 robust kernels"""
import graphgens as gg
def check(ctx):
    ctx.build('fgraph')
    r = ctx.tlc('RobustKernel', consts=dict(Nums=set(range(0, ctx.q(17, 40))) | {99, 100, 101, 199, 200}, Dens={1, 2, 3, 5, 8, 100}), spec='Spec',
                invariants=['InUnit', 'NonIncreasing', 'AtOne', 'InlierFull'])
    ctx.rng.shuffle(r.items)
    ctx.replay('weights', [r.items[i:i + 12] for i in range(0, len(r.items), 12)])
    K = ['weight']
    ops = {'node', 'factor', 'solve', 'set', 'chi2'}
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N2, gg.F2, label='2D', seed=1)
    gg.random(ctx, ctx.q(800, 10000), ops, K, gg.N3, gg.F3, label='3D', seed=2)
    for i, rb in enumerate([1, 2, 3, 4]):
        gg.random(ctx, ctx.q(250, 4000), (ops | {'look'}) - {'set'}, K, robusts={rb}, label='kernel %d, both APIs' % rb, seed=4 + i)
