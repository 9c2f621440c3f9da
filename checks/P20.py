"""P20 iterative registration: Registration with methods weighted and gicp"""
import reggens as G, rigidgens as rg
from tlc import simulate
def check(ctx):
    ctx.build('pc')
    rng = ctx.rng
    i = lambda m: rng.randint(-m, m)
    T = G.base()['Ts']
    near = rg.elements([((1, 0, 0, 0), (0, 0, 0), 1), ((5, 1, 0, 0), (1, -1, 0), 2), ((4, 0, 1, -1), (0, 0, 1), 1), ((9, 2, 1, 1), (1, 2, -1), 1), ((3, 0, 0, 1), (-1, 0, 0), 1)])
    pts = G.LAT + [[i(6), i(6), i(6)] for _ in range(25)]
    for label, modes, noise, num in (('exact and balanced targets', {'pairs'}, [[0, 0, 0]] * 5 + [[i(2), i(2), i(2)] for _ in range(10)], ctx.q(700, 12000)),
                                     ('inconsistent targets', {'free'}, [[0, 0, 0]] * 3 + [[i(1), i(1), i(1)] for _ in range(10)], ctx.q(400, 8000))):
        r = simulate('Registration', num, depth=60, seed=ctx.seed, invariants=['Decided'],
                     consts=G.base(Modes=modes, Ts=T + near * 5, Points=pts if 'pairs' in modes else [[3 * x for x in p] for p in pts], Noises=noise, Weights=[1, 1, 2, 3, 5, 0] if 'pairs' in modes else [1, 2, 3], Covs=[1, 2, 3, 4, 5],
                                   Methods={'weighted', 'gicp'}, Offsets=[[0, 0, 0], [5, -3, 7]], Scales=[0, 0, 1, -1, 2], MaxCs=ctx.q(9, 14), MaxLen=4, Sampling=True))
        ctx.account('Registration simulation, ' + label, r)
        ctx.replay('registration', r.items, label=label)
