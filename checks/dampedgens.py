from tlc import simulate
def O(kind, n, d): return dict(kind=kind, n=n, d=d)
OUT = [O('ratio', -2, 1), O('eps', -1, 1), O('eps', 1, 1), O('tol', 0, 1), O('tol', 1, 2), O('tol', 999, 1000), O('tol', 1001, 1000), O('ratio', 1, 10),
       O('ratio', 249, 1000), O('ratio', 251, 1000), O('ratio', 1, 2), O('ratio', 799, 1000), O('ratio', 801, 1000), O('ratio', 3, 2), O('tol', -1, 2), O('tol', -1001, 1000), O('tol', -999, 1000)]
INV = ['NeverWorse', 'NeverOver']
PROP = ['RejectUndoes', 'AcceptMoves', 'FreshDamping', 'StopsWhenSmall', 'Terminates']
def exhaustive(ctx, methods, limits, iters, outs=OUT, calls=1):
    c = dict(Outcomes=outs, Methods=methods, Limits=limits, MaxCalls=calls, MaxIters=iters, Sampling=False, MaxExp=6)
    r = ctx.tlc('DampedControl', consts=c, invariants=INV, properties=PROP[:-1], view='View', action_constraints=['EmitEach'], spec='SimSpec')
    ctx.replay('damped', r.items, dict(outcomes=outs), label='damped (all histories)')
def live(ctx, methods):
    ctx.tlc('DampedControl', 'DampedControl termination', consts=dict(Outcomes=[OUT[0], OUT[4], OUT[8], OUT[10], OUT[13]], Methods=methods, Limits={1, 3, 4}, MaxCalls=1, MaxIters=4, Sampling=False, MaxExp=6),
            invariants=INV, properties=PROP, spec='Spec')
def random(ctx, num, methods, limits, iters, calls, outs=OUT, seed=0):
    r = simulate('DampedControl', num, depth=2 * iters + 8, seed=ctx.seed + 100 * seed,
                 consts=dict(Outcomes=outs, Methods=methods, Limits=limits, MaxCalls=calls, MaxIters=iters, Sampling=True, MaxExp=6))
    ctx.account('DampedControl simulation', r)
    ctx.replay('damped', r.items, dict(outcomes=outs), label='damped (random)')
