"""P19 closed-form registration: Registration with method arun"""
import reggens as G, rigidgens as rg
from tlc import simulate
def check(ctx):
    ctx.build('pc')
    rng = ctx.rng
    T = G.base()['Ts']
    # every set of 3 and 4 points of a small lattice, a few motions
    r = ctx.tlc('Registration', 'all point sets', spec='SetSpec', consts=G.base(Ts=[T[0]] + rng.sample(T, ctx.q(1, 3)), Offsets=[[0, 0, 0]], Stretches=[[1, 1, 1]], MaxCs=ctx.q(3, 4)),
                invariants=['Decided'], properties=['MorePoints'])
    ctx.replay('registration', r.items, label='all small point sets')
    pts = rng.sample(G.LAT, 10)
    r = ctx.tlc('Registration', 'point sets of ten points', spec='SetSpec', consts=G.base(Ts=rng.sample(T, 4), Points=pts, Offsets=G.OFF, Scales=[0, -5, 4], Stretches=[[1, 1, 1]], MaxCs=4), invariants=['Decided'])
    ctx.replay('registration', r.items, label='sets up to 4 points, scales and offsets')
    # stretched and mirrored symmetric clouds
    r = ctx.tlc('Registration', 'symmetric clouds', spec='OrbitSpec', consts=G.base(Modes={'sym'}, Ts=[T[0]] + rng.sample(T, ctx.q(2, 6)), Offsets=G.OFF[:2], Scales=ctx.q([0], [0, -3, 3]), MaxCs=ctx.q(2, 3)), invariants=G.INV)
    ctx.replay('registration', r.items, label='symmetric, stretched, mirrored clouds')
    # random growing clouds
    i = lambda m: rng.randint(-m, m)
    pts = G.LAT + [[i(9), i(9), i(9)] for _ in range(20)] + [[a * k, b * k, c * k] for (a, b, c) in [(1, 2, 2), (3, -1, 2)] for k in range(-4, 5)]
    noise = [[0, 0, 0]] * 6 + [[i(2), i(2), i(2)] for _ in range(12)]
    n = len(pts)
    r = simulate('Registration', ctx.q(1500, 20000), depth=60, seed=ctx.seed, invariants=G.INV,
                 consts=G.base(Modes={'pairs', 'free', 'sym'}, Points=pts, Pools=[list(range(1, n + 1)), list(range(n - 17, n - 8)), list(range(1, 28))], Noises=noise,
                               Orbits=[[i(6), i(6), i(6)] for _ in range(20)] + G.ORB, Stretches=G.STR + [[i(4), i(4), i(4)] for _ in range(20)], Offsets=G.OFF + [[1000, -300, 500]],
                               Scales=[0, 0, 0, 1, -1, 3, -3, 6, -6], MaxCs=ctx.q(9, 14), MaxLen=5, Sampling=True))
    ctx.account('Registration simulation', r)
    ctx.replay('registration', r.items, label='growing clouds')
