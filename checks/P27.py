"""P27 time profiling: TimeProfile, every short history and long random ones"""
from tlc import simulate
INV, PROP = ['Ordered'], ['OnlyGrows', 'OneAtATime']
def check(ctx):
    ctx.build('common')
    c = dict(Labels={'a', 'b'}, Waits={40}, Bursts=set(), MaxObj=2, MaxLen=ctx.q(5, 6), Sampling=False)
    r = ctx.tlc('TimeProfile', 'every history', spec='Spec', consts=c, invariants=INV, properties=PROP, action_constraints=['EmitFull'], workers=8)
    short = r.items if len(r.items) < ctx.q(25000, 10**6) else ctx.rng.sample(r.items, 25000)
    ctx.replay('profile', short, label='every short history')
    ctx.replay('profile', short, dict(unit=1), label='every short history, on the clock of the specification')
    for seed, (n, num, bursts) in enumerate([(12, 2000, set()), (60, 400, {2, 9}), (400, 30, set()), (6, 60, {3, 130, 300}), (4, 16, {1100, 2100})]):
        r = simulate('TimeProfile', ctx.q(num, 8 * num), depth=n + 3, seed=ctx.seed + 100 * seed, invariants=INV,
                     consts=dict(Labels={'a', 'bb', 'problem_build', 'x1'}, Waits={0, 1, 5, 30, 120, 700} if seed < 3 else {0, 1, 7}, Bursts=bursts, MaxObj=4, MaxLen=n, Sampling=True))
        ctx.account('TimeProfile simulation, %d events' % n, r)
        ctx.replay('profile', r.items, label='%d events' % n)
        # microseconds, seconds, and hours per unit of waiting
        for unit in (1, 10**6, 10**10):
            ctx.replay('profile', r.items, dict(unit=unit), label='%d events, on the clock of the specification, %d us' % (n, unit))
