"""P18 initialisation of the target"""
import factorgens as fg
def check(ctx):
    ctx.build('fgraph')
    fg.sweep(ctx, fg.ALL, ['initA', 'bystander', 'init-target', 'noinit', 'initAux'])
    fg.random(ctx, fg.ALL, ctx.q(6000, 60000), ['initA', 'bystander', 'init-target', 'noinit', 'initAux'])
