"""P30 memory safety: behaviours of every specification, replayed on a build with the address and undefined-behaviour
sanitizers and with the bounds checks of Eigen and of the standard containers. Only what these report counts."""
import importlib, subprocess, random, time, traceback, os
from concurrent.futures import ThreadPoolExecutor
import tlc
NAMES = ['P06', 'P23', 'P28', 'P12', 'P25', 'P10', 'P22', 'P08', 'P20', 'P19', 'P16', 'P02', 'P01', 'P04', 'P05', 'P14', 'P17', 'P24', 'P21', 'P15', 'P26', 'P27', 'P29', 'P13']
def runtime(name):
    return subprocess.run(['g++', '-print-file-name=' + name], capture_output=True, text=True).stdout.strip()
class Light:
    """the context of another check, with fewer behaviours, nothing enumerated, and verdicts of the sanitizers only"""
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.tier, self.seed = ctx.tier, ctx.seed
        self.rng = random.Random('%s-%s' % (name, ctx.seed))
        self.validated, self.extra = 0, {}
    def q(self, quick, thorough): return quick
    def log(self, *a): pass
    def build(self, what): pass
    def tlc(self, *a, **kw): return tlc.Result()
    def account(self, label, r): return self.ctx.account('%s: %s' % (self.name, label), r)
    def cap(self, items):
        n = self.ctx.q(60, 600); items = list(items)
        return items if len(items) <= n else self.rng.sample(items, n)
    def opts(self, o): return dict(o or {}, keys=['nothing'])
    def replay(self, driver, items, opts=None, label=None, **kw):
        return self.ctx.replay(driver, self.cap(items), self.opts(opts), shards=self.ctx.q(1, 2), per_item=120, label='%s: %s' % (self.name, label or driver)) if items else []
    def collect(self, driver, items, opts=None, **kw):
        return self.ctx.collect(driver, self.cap(items), self.opts(opts), shards=1) if items else []
    def mismatch(self, *a, **kw): pass
def check(ctx):
    ctx.build('sanitized')
    full = tlc.simulate
    def light(module, num, depth, procs=6, **kw):
        """one small simulation"""
        return full(module, max(2, min(num, ctx.q(60, 600))), depth, procs=1, **kw)
    tlc.simulate = light
    mods = [(n, importlib.import_module(n)) for n in NAMES]
    ctx.child_env = {'LD_PRELOAD': runtime('libasan.so') + ' ' + runtime('libstdc++.so'), 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0',
                     'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:print_stacktrace=0', 'PYTHONMALLOC': 'malloc'}
    def one(nm):
        name, mod = nm
        try: mod.check(Light(ctx, name))
        except Exception: return name + ': ' + traceback.format_exc()
    with ThreadPoolExecutor(max_workers=8) as ex:
        bad = [x for x in ex.map(one, mods) if x]
    if bad: raise tlc.SpecError('\n'.join(bad))
    ctx.assumptions.append('uninitialised reads are only seen where they lead to an invalid value or access')
