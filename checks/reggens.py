"""Configurations of Registration shared by P19 and P20"""
from tlc import simulate
import rigidgens as rg, factorgens as fg, itertools
LAT = [list(p) for p in itertools.product((-1, 0, 1), repeat=3)]
ORB = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [2, 0, 0], [0, 3, 0], [1, 2, 0], [3, 1, 2], [1, 1, 1], [0, 0, 5], [2, 2, 0]]
STR = [[1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1], [-1, -1, 1], [-1, -1, -1], [2, 1, 1], [1, 3, -2], [-3, 1, 2], [1, 0, 1], [0, 0, 1], [-1, 2, 0], [-2, -1, -3]]
OFF = [[0, 0, 0], [5, -3, 7], [40, 10, -25]]
STARTS = [((1, 0, 0, 0), (0, 0, 0), 1), ((12, 1, 0, 0), (0, 0, 0), 1), ((1, 0, 0, 0), (1, -1, 2), 4), ((5, 0, 1, -1), (1, 0, 0), 2), ((4, 1, 0, 1), (0, 1, 0), 1), ((3, 0, -1, 0), (1, 1, 1), 1)]
def base(**kw):
    c = dict(Ts=rg.elements(rg.gens(rg.QS, rg.TS)), Points=LAT, Noises=[[0, 0, 0]], Weights=[1], Covs=[1], Orbits=ORB, Stretches=STR, Offsets=OFF, Scales=[0],
             Starts=rg.elements(STARTS), Modes={'pairs'}, Methods={'arun'}, MaxCs=4, MaxLen=4, Sampling=False)
    c.update(kw)
    c.setdefault('Pools', [list(range(1, len(c['Points']) + 1))])
    return c
INV = ['Decided', 'HalfTurnsSuffice', 'UniqueAmongCube', 'NoTurnUnmirrored']
