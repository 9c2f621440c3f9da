"""Configurations of ValueSemantics"""
from tlc import simulate
INV, PROP = ['WellFormed', 'Grounded'], ['OneChanges', 'TermsStay']
def random(ctx, num, topics, length, layouts, scrib, omit=frozenset([False]), slots=13, nlit=5, nodes=4, seed=0, label='', only=frozenset()):
    r = simulate('ValueSemantics', num, depth=length + 4, seed=ctx.seed + 100 * seed, invariants=INV,
                 consts=dict(Topics=topics, NSlots=slots, NLit=nlit, Layouts=set(layouts), Omit=set(omit), Scrib=scrib, MaxNodes=nodes, MaxLen=length, Only=set(only), Sampling=True))
    ctx.account('ValueSemantics simulation ' + label, r)
    procs = ctx.replay('values', r.items, label='programs ' + label)
    ctx.extra['refused'] = ctx.extra.get('refused', 0) + sum(max(p.data.values(), default=0) for p in procs)
# small vocabularies for which every short program is run
SMALL = [('pose', {'SE3inv', 'SE3lhs', 'SE3T', 'SE3mat'}, 4), ('rot', {'SO3rhs', 'SO3R', 'SO3mat', 'SO3copy'}, 4), ('cov', {'CovC', 'Cov', 'CovLhs'}, 4)]
def exhaustive(ctx, more, layouts, scrib, omit=frozenset([False])):
    for topic, ops, n in SMALL:
        r = ctx.tlc('ValueSemantics', 'every program of %d events over %s' % (n + more, ', '.join(sorted(ops))), spec='Spec', invariants=INV, properties=PROP, action_constraints=['EmitFull'],
                    consts=dict(Topics={topic}, NSlots=4, NLit=1, Layouts=set(layouts), Omit=set(omit), Scrib=scrib, MaxNodes=2, MaxLen=n + more, Only=ops, Sampling=False))
        items = r.items if len(r.items) <= ctx.q(1500, 20000) else ctx.rng.sample(r.items, ctx.q(1500, 20000))
        ctx.replay('values', items, label='every short program, ' + topic)
