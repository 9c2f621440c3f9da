"""P21 plane fitting: PlaneFit, all small clouds and random growing ones"""
from tlc import simulate
import rigidgens as rg
FR = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 2], [1, 0, 0]], [[0, 0, 1], [3, 0, 0], [0, -1, 0]], [[1, 1, 0], [1, -1, 0], [0, 0, 1]], [[1, 2, 2], [2, 1, -2], [2, -2, 1]],
      [[1, 1, 1], [1, -1, 0], [1, 1, -2]], [[1, -1, 0], [1, 1, -2], [1, 1, 1]], [[3, 4, 0], [4, -3, 0], [0, 0, 1]], [[4, 0, -3], [0, 5, 0], [3, 0, 4]], [[2, 1, 0], [-1, 2, 0], [0, 0, 3]], [[0, 1, 1], [0, 1, -1], [2, 0, 0]]]
def check(ctx):
    ctx.build('pc')
    T = rg.elements(rg.gens(rg.QS, rg.TS))
    inv = ['Uncorrelated', 'NeedsExtent', 'FlatUnique']
    r = ctx.tlc('PlaneFit', 'all small clouds', spec='AllSpec', invariants=inv,
                consts=dict(Frames=FR, Coords={-1, 0, 2}, Heights=[0, 1], Origins=[[0, 0, 0], [7, -20, 3]], Ts=[T[0]] + ctx.rng.sample(T, 1), Scales=[0], MaxSamples=3, MaxLen=1, Sampling=False))
    ctx.replay('planefit', r.items, label='all small clouds')
    r = simulate('PlaneFit', ctx.q(2500, 40000), depth=60, seed=ctx.seed, invariants=inv,
                 consts=dict(Frames=FR, Coords=set(range(-3, 4)), Heights=[0, 0, 0, 1, 2], Origins=[[0, 0, 0], [1, 2, 3], [-40, 25, 100], [900, -1200, 300]], Ts=T, Scales=[0, 0, 1, -2, 3, -4], MaxSamples=6, MaxLen=5, Sampling=True))
    ctx.account('PlaneFit simulation', r)
    ctx.replay('planefit', r.items, label='growing, moving clouds')
