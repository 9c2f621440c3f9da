"""P07 residuals"""
import factorgens as fg
def check(ctx):
    ctx.build('fgraph')
    fg.sweep(ctx, fg.ALL, ['residual'])
    fg.random(ctx, fg.ALL, ctx.q(6000, 60000), ['residual'])
