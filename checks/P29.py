"""P29 the Python interface takes numbers however they are stored, and documented defaults when they are left out"""
import valuegens as vg
LAY = {'C', 'F', 'T', 'strided', 'sub', 'rev', 'revrow', 'skip', 'ro', 'col', 'f32', 'int', 'list'}
def check(ctx):
    ctx.build('python')
    for seed, (topic, num, n) in enumerate([('rot', 160, 50), ('pose', 200, 60), ('cov', 140, 45), ('points', 260, 45), ('graph2', 200, 50), ('graph3', 200, 50), ('planes', 140, 45), ('graphs', 140, 60)]):
        vg.random(ctx, ctx.q(num, 12 * num), {topic}, n, layouts=LAY, omit={True, False}, scrib=False, seed=40 + seed, label=topic)
