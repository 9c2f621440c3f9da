"""P01 rigid transformations form a group acting on points: RigidGroup on the lattice, LieWords off it"""
import liegens
from rigidgens import *
def check(ctx):
    ctx.build('geometry')
    ops = {'load', 'exp', 'Rt', 'mul', 'star', 'inv', 'copy', 'assign', 'updl', 'updr', 'point', 'points', 'read', 'valid'}
    exhaustive(ctx, {'load', 'mul', 'inv', 'point', 'points', 'read', 'copy'}, 2, ctx.q(3, 4), ctx.q(150, 300))
    random(ctx, ops, nreg=4, length=24, num=ctx.q(1500, 12000))
    words = {'exp', 'mul', 'inv', 'copy', 'points', 'updl', 'updr'}
    liegens.exhaustive(ctx, {'exp', 'mul', 'inv', 'points'}, ctx.q(3, 4))
    liegens.random(ctx, words, ctx.q(2000, 20000))
