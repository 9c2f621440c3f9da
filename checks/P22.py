"""P22 plane landmark: PlaneLandmark histories"""
import landgens as L
OPS = {'push', 'pose', 'swap', 'estimate', 'inc', 'incerr', 'error', 'moments', 'mean', 'look', 'clear', 'reset'}
def check(ctx):
    ctx.build('pc')
    L.exhaustive(ctx, OPS - {'swap', 'look', 'error'}, ctx.q(6, 7))
    L.random(ctx, OPS, ctx.q(1000, 15000), ctx.q(24, 32))
