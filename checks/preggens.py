"""Configurations of PlaneReg shared by P23 and P26"""
from tlc import simulate
import rigidgens as rg
# four lattice points of each plane and the normal
PL = [([[0, 0, 0], [3, 0, 0], [0, 2, 0], [3, 2, 0]], [0, 0, 1]), ([[5, 0, 1], [5, 3, 0], [5, 1, 4], [5, 4, 3]], [1, 0, 0]), ([[0, 6, 0], [2, 6, 2], [4, 6, 1], [1, 6, 5]], [0, 1, 0]),
      ([[4, 0, 0], [0, 4, 0], [0, 0, 4], [2, 1, 1]], [1, 1, 1]), ([[-2, 0, 0], [0, 0, 2], [-2, 3, 0], [1, 2, 3]], [1, 0, -1]), ([[-4, 1, 1], [-4, 1, 5], [-3, -1, 2], [-5, 3, 0]], [2, 1, 0])]
# means on one line
LINE = [([[-1, -1, 0], [1, -1, 0], [-1, 1, 0], [1, 1, 0]], [0, 0, 1]), ([[2, 1, 1], [2, 3, 3], [2, 1, 3], [2, 3, 1]], [1, 0, 0]), ([[3, 4, 3], [5, 4, 3], [3, 4, 5], [5, 4, 5]], [0, 1, 0])]
MOT = [((1, 0, 0, 0), (0, 0, 0), 1), ((5, 1, -1, 0), (1, 0, 2), 2), ((3, 0, 1, 0), (1, -1, 0), 1), ((2, 0, 0, -1), (0, 2, 1), 1), ((1, 1, 0, 0), (3, 0, -1), 1), ((4, 1, 1, 1), (-2, 1, 1), 2), ((1, 0, -1, 1), (0, 0, 5), 1), ((0, 1, 1, 0), (1, 1, 0), 1), ((8, 0, 1, -1), (1, 0, 0), 4), ((1, 2000, 0, 0), (1, -1, 0), 1), ((1, 0, -800, 1100), (2, 0, 1), 1)]
SH = [[0, 0, 0], [1, -1, 0], [0, 2, 1], [1, 1, -1]]
INV = ['FirstFixed', 'LastIs']
PROP = ['KeepsPoints', 'FailureKeeps', 'InitExact']
ALLM = {'GRADIENT_BENGIOS_NAG', 'GRADIENT_ALL_POSES', 'GN_HESSIAN', 'LM_SPHER', 'LM_ELLIP'}
def consts(planes=PL, **kw):
    c = dict(NPoses={2, 3, 4}, Planes=[p for p, _ in planes], Normals=[v for _, v in planes], Motions=rg.elements(MOT), Shakes=SH, Modes=ALLM,
             OpSet={'renew', 'add', 'addfull', 'see', 'last', 'reset', 'init', 'solve', 'look', 'evaluate'}, MaxLen=20, Sampling=True)
    c.update(kw); return c
def random(ctx, num, keys, label, per_item=120, seed=0, **kw):
    r = simulate('PlaneReg', num, depth=60, seed=ctx.seed + 50 * seed, invariants=INV, consts=consts(**kw))
    ctx.account('PlaneReg simulation, ' + label, r)
    ctx.replay('planereg', r.items, dict(keys=keys), label=label, per_item=per_item)
