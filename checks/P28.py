"""P28 objects are independent values: programs over several objects at once, whose arrays the user overwrites"""
import valuegens as vg
def check(ctx):
    ctx.build('python')
    vg.exhaustive(ctx, ctx.q(1, 2), layouts={'C'}, scrib=True)
    for seed, (topic, num, n) in enumerate([('rot', 100, 60), ('pose', 160, 70), ('cov', 120, 50), ('points', 100, 45), ('graph2', 160, 50), ('graph3', 160, 50), ('graphs', 160, 60), ('planes', 160, 50), ('all', 100, 70)]):
        vg.random(ctx, ctx.q(num, 12 * num), {topic}, n, layouts={'C', 'F'}, scrib=True, seed=seed, label=topic)
