"""P25 synthetic scenes: SceneOps histories replayed, every generated scene checked to be a behaviour of SceneTrace"""
from tlc import simulate
import json
INV, PROP = ['Refers', 'OneHolder'], ['ScenesStay', 'TruthOnlyWhenSet']
def check(ctx):
    ctx.build('pc')
    c = dict(Points=set(range(1, 13)) | {17, 20, 31}, NPlanes={1, 2, 3, 4, 5, 7}, NPoses={1, 2, 3, 4}, Noises={1}, Biases={1, 3}, MaxScenes=1, MaxRegs=1, MaxLen=3, Sampling=False)
    r = ctx.tlc('SceneOps', 'all small scenes', spec='Spec', consts=c, invariants=INV, properties=PROP, action_constraints=['EmitFull'], workers=8)
    items = [h for h in r.items if [x['op'] for x in h[1:]] == ['register', 'truth'] or h[0]['c']['t'] == 1 and h[1]['op'] == 'register']
    traces = run(ctx, items, 'all small scenes')
    # sizes at which the share of a plane cannot be computed by multiplying with a rounded quotient
    r = ctx.tlc('SceneOps', 'delicate sizes', spec='Spec', consts=dict(c, Points={82, 94, 123, 164, 188}, NPlanes={2, 3, 4, 8}, NPoses={1, 2}, Biases={1}), invariants=INV, properties=PROP, action_constraints=['EmitFull'], workers=8)
    traces += run(ctx, [h for h in r.items if [x['op'] for x in h[1:]] == ['register', 'truth'] or h[0]['c']['t'] == 1 and h[1]['op'] == 'register'], 'delicate sizes')
    for k, (num, P, Q, T, L, M) in enumerate(((150, {5, 12, 24, 40, 64, 100}, {1, 2, 3, 4, 6, 10, 13}, {1, 2, 3, 5, 9}, 12, 3), (12, {256, 999, 1500}, {1, 7, 30, 100}, {2, 3, 4}, 4, 1))):
        r = simulate('SceneOps', ctx.q(num, 8 * num), depth=L + 3, seed=ctx.seed + 100 * k, invariants=INV,
                     consts=dict(Points=P, NPlanes=Q, NPoses=T, Noises={1, 2, 3, 4}, Biases={1, 2, 3, 4}, MaxScenes=M, MaxRegs=2, MaxLen=L, Sampling=True))
        ctx.account('SceneOps simulation', r)
        traces += run(ctx, r.items, 'histories of scenes and registrations')
    # the same scene sizes are generated many times over: keep the distinct abstractions
    seen = {json.dumps(x, sort_keys=True): (x, h) for x, h in traces}
    tr = list(seen.values())
    r = ctx.tlc('SceneTrace', consts={}, invariants=['Balanced'], files={'scenes.json': json.dumps([x for x, _ in tr])})
    for x in r.items:
        s, h = tr[x['s'] - 1]
        ctx.mismatch('scene', '%s at pose %d, point %d of a scene of %d points, %d planes, %d poses: %s' % (x['why'], x['t'], x['i'], s['n'], s['p'], s['t'],
                     {k: v for k, v in s.items() if k != 'pts'} if x['why'] != 'bad point' else s['pts'][x['t'] - 1][x['i']]), item=h)
    ctx.extra['recorded_scenes'] = len(traces)
    ctx.log('%d recorded scenes (%d distinct), %d not explained' % (len(traces), len(tr), len(r.items)))

def run(ctx, items, label):
    procs = ctx.replay('scene', items, label=label)
    return [(x, items[i]) for p in procs for i, d in p.data.items() for x in d]
