"""P08 Jacobians"""
import factorgens as fg
def check(ctx):
    ctx.build('fgraph')
    fg.sweep(ctx, fg.ALL, ['jacobian', 'order'])
    fg.random(ctx, fg.ALL, ctx.q(6000, 60000), ['jacobian', 'order'])
