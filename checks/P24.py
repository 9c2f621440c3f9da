"""P24 derivatives of the plane error: PlaneLandmark histories with derivative queries"""
import landgens as L
def check(ctx):
    ctx.build('pc')
    L.random(ctx, {'push', 'pose', 'estimate', 'inc', 'deriv', 'reset'}, ctx.q(1500, 20000), ctx.q(20, 28), ['gradient', 'hessian'])
