"""P03 updates, adjoint, distances: RigidGroup on the lattice and LieWords off it"""
import liegens, rigidgens
def check(ctx):
    ctx.build('geometry')
    rigidgens.exhaustive(ctx, {'load', 'updl', 'updr', 'upd', 'adj', 'dist'}, 2, ctx.q(3, 4), ctx.q(150, 300))
    rigidgens.random(ctx, {'load', 'exp', 'mul', 'inv', 'updl', 'updr', 'upd', 'adj', 'dist'}, nreg=4, length=20, num=ctx.q(1200, 10000))
    liegens.exhaustive(ctx, {'exp', 'updl', 'updr', 'conj', 'swap', 'dist'}, ctx.q(3, 4))
    liegens.random(ctx, {'exp', 'mul', 'inv', 'updl', 'updr', 'upd', 'conj', 'swap', 'adj', 'dist'}, ctx.q(2500, 25000))
