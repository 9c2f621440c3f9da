"""Configurations of GraphModel shared by the graph properties"""
from tlc import simulate
N2, N3 = {'P2', 'L2'}, {'P3', 'L3', 'PL'}
F2, F3 = {'F1P2', 'F2P2', 'ODO', 'F1L2'}, {'F1P3', 'F2P3', 'F1L3', 'F1PL', 'PT2PL'}
INV = ['Partition', 'Neighbours', 'AnchorsOut', 'Apart']
PROPS = ['AnchorsStay', 'QueryPure']
def random(ctx, num, ops, keys, nk=N2 | N3, fk=F2 | F3, robusts={0, 1, 2, 3, 4}, nodes=6, factors=10, length=22, anchors={True, False}, dense=False, shuffle=False, label='', seed=0):
    r = simulate('GraphModel', num, depth=length + 5, seed=ctx.seed + 100 * seed,
                 consts=dict(NKinds=nk, FKinds=fk, Robusts=robusts, MaxNodes=nodes, MaxFactors=factors, MaxLen=length, OpSet=ops, Anchors=anchors, Sampling=True))
    ctx.account('GraphModel simulation ' + label, r)
    ctx.replay('graph', r.items, dict(keys=keys, dense=dense, shuffle=shuffle), label='graph ' + label)
def exhaustive(ctx, ops, keys, nk, fk, robusts, nodes, factors, length, anchors={True, False}, cap=12000, dense=False, shuffle=False):
    r = ctx.tlc('GraphModel', 'GraphModel exhaustive', consts=dict(NKinds=nk, FKinds=fk, Robusts=robusts, MaxNodes=nodes, MaxFactors=factors, MaxLen=length, OpSet=ops, Anchors=anchors, Sampling=False),
                view='View', invariants=INV, properties=PROPS, action_constraints=['EmitEach'])
    items = r.items if len(r.items) <= cap else ctx.rng.sample(r.items, cap)
    ctx.replay('graph', items, dict(keys=keys, dense=dense, shuffle=shuffle), label='graph (exhaustive)')
