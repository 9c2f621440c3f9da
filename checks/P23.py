"""P23 plane registration: PlaneReg histories"""
import preggens as G
KEYS = ['first', 'trajectory', 'interpolation', 'error', 'damped', 'points', 'rmse', 'evaluate', 'fresh', 'crash', 'hang']
def check(ctx):
    ctx.build('pc')
    G.random(ctx, ctx.q(900, 12000), KEYS, 'all operations', NPoses={2, 3, 4, 6})
    G.random(ctx, ctx.q(500, 8000), KEYS, 'optimisation', seed=1, NPoses={2, 3, 5}, OpSet={'addfull', 'see', 'last', 'init', 'reset', 'solve', 'evaluate'}, Shakes=[[1, -1, 0], [0, 2, 1], [1, 1, -1]], MaxLen=ctx.q(16, 24))
