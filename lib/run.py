"""Context of one check: build, model checking runs, replay of behaviours in child processes, verdict, evidence."""
import json, os, sys, time, subprocess, tempfile, shutil, random, signal, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build as B, tlc as T

KNOWN = os.path.join(VERIF, 'known_findings.txt')

def known_keys(pid):
    """open findings: lines  'open: property=<id> key=<key> <what fails>'"""
    res = {}
    try:
        for l in open(KNOWN):
            if l.startswith('open: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                res[key.split('=', 1)[1]] = what.strip()
    except OSError:
        pass
    return res

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rng = random.Random('%s-%s' % (pid, seed))
        self.states = self.transitions = self.validated = 0
        self.samples, self.mismatches, self.notes = [], [], []
        self.assumptions = []
        self.sodir = None
        self.extra = {}
        self.budget = {'quick': 1, 'thorough': 8}[tier]

    def q(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def build(self, what):
        t = time.time()
        dev = os.environ.get('MX_DEV_SODIR')       # development only: reuse a build
        self.sodir = dev or getattr(B, what)()
        self.log('built %s in %.1f s' % (what, time.time() - t))

    def tlc(self, module, label=None, **kw):
        if kw.get('view'): kw.setdefault('workers', 1)   # the recorded path must be the shortest one
        kw.setdefault('seed', self.seed)
        r = T.run(module, **kw)
        return self.account(label or module, r)

    def account(self, label, r):
        self.states += r.distinct or r.states
        self.transitions += r.states
        self.notes.append('%s: %d states generated, %d distinct, %d items, %.1f s' % (label, r.states, r.distinct, len(r.items), r.wall))
        self.log('TLC', self.notes[-1])
        return r

    def replay(self, driver, items, opts=None, shards=8, per_item=60, label=None):
        """run drivers/<driver>.py on every item, in child processes; collects mismatches"""
        items = list(items)
        if not items:
            raise T.SpecError('no behaviours generated for driver ' + driver)
        d = tempfile.mkdtemp(prefix='replay_')
        t = time.time()
        try:
            shards = max(1, min(shards, len(items)))
            procs = []
            for s in range(shards):
                idx = list(range(s, len(items), shards))
                procs.append(Child(self, d, driver, s, [(i, items[i]) for i in idx], opts, per_item))
            for p in procs: p.start()
            for p in procs: p.finish()
            nev = sum(p.done for p in procs)
            checks = sum(p.checks for p in procs)
            for p in procs:
                for m in p.mism:
                    m['driver'], m['opts'], m['item'] = driver, opts, items[m['index']]
                    self.mismatches.append(m)
            self.validated += nev
            self.extra['comparisons'] = self.extra.get('comparisons', 0) + checks
            self.log('%s: %d behaviours replayed, %d comparisons, %d mismatches, %.1f s' %
                     (label or driver, nev, checks, sum(len(p.mism) for p in procs), time.time() - t))
            if len(self.samples) < 4:
                self.samples.append({'driver': driver, 'behaviour': items[len(items) // 2] if len(json.dumps(items[len(items) // 2])) < 6000 else str(items[len(items) // 2])[:6000]})
            return [p for p in procs]
        finally:
            shutil.rmtree(d, True)

    def collect(self, driver, items, opts=None, shards=8, per_item=120):
        """as replay, for drivers that return recorded data (m['data']) instead of verdicts"""
        d = tempfile.mkdtemp(prefix='collect_')
        try:
            shards = max(1, min(shards, len(items)))
            procs = []
            for s in range(shards):
                procs.append(Child(self, d, driver, s, [(i, items[i]) for i in range(s, len(items), shards)], opts, per_item))
            for p in procs: p.start()
            for p in procs: p.finish()
            res = {}
            for p in procs:
                res.update(p.data)
                for m in p.mism:
                    m['driver'], m['opts'], m['item'] = driver, opts, items[m['index']]
                    self.mismatches.append(m)
            return [res.get(i) for i in range(len(items))]
        finally:
            shutil.rmtree(d, True)

    def mismatch(self, key, what, item=None, **kw):
        self.mismatches.append(dict(key=key, what=what, item=item, driver=None, opts=None, **kw))

    def finish(self, level='model_checking'):
        known = known_keys(self.pid)
        new, seen = [], set()
        for m in self.mismatches:
            if m.get('key') in known:
                if m['key'] not in seen:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, known[m['key']]))
                    seen.add(m['key'])
            else:
                new.append(m)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': dict(states=self.states, transitions=self.transitions,
                               traces_validated_against_impl=self.validated, samples=self.samples[:4],
                               runs=self.notes, **self.extra),
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        if new:
            os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
            path = os.path.join(VERIF, 'evidence', 'replay', self.pid + '.json')
            with open(path, 'w') as fh:
                json.dump({'property': self.pid, 'count': len(new), 'mismatches': new[:20]}, fh, indent=1)
            for m in new[:8]:
                self.log('MISMATCH', m.get('key'), '|', str(m.get('what'))[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
            return 1
        self.log('held on everything explored')
        return 0

class Child:
    """a replay shard; restarted after the offending behaviour if it dies or hangs"""
    def __init__(self, ctx, d, driver, s, items, opts, per_item):
        self.ctx, self.d, self.driver, self.s, self.items, self.opts, self.per_item = ctx, d, driver, s, items, opts, per_item
        self.mism, self.done, self.checks, self.data = [], 0, 0, {}
        self.left = items
        self.n = 0

    def spawn(self, items):
        self.n += 1
        base = os.path.join(self.d, 's%d_%d' % (self.s, self.n))
        with open(base + '.in', 'w') as fh:
            json.dump({'items': items, 'opts': self.opts, 'so': self.ctx.sodir, 'seed': self.ctx.seed}, fh)
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'lib', 'child.py'), self.driver, base + '.in', base + '.out'],
                             stdout=subprocess.DEVNULL, stderr=open(base + '.err', 'w'), stdin=subprocess.DEVNULL,
                             env=dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', **getattr(self.ctx, 'child_env', {})))
        p.base = base
        return p

    def start(self):
        self.p = self.spawn(self.left)

    def wait(self, p):
        """wait until exit, or until no progress for per_item seconds; returns 'ok' | 'died' | 'hung' """
        size, last = -1, time.time()
        while True:
            try:
                p.wait(0.05 if size < 0 else 0.2)
                return 'ok' if p.returncode == 0 else 'died'
            except subprocess.TimeoutExpired:
                pass
            try:
                n = os.path.getsize(p.base + '.out')
            except OSError:
                n = 0
            if n != size:
                size, last = n, time.time()
            elif time.time() - last > self.per_item:
                p.kill(); p.wait()
                return 'hung'

    def read(self, p):
        """consume results; returns the index being run when it stopped, or None"""
        cur = None
        ended = False
        try:
            for line in open(p.base + '.out'):
                if not line.endswith('\n'):
                    break
                m = json.loads(line)
                if 'begin' in m: cur = m['begin']
                elif 'end' in m:
                    self.done += 1; self.checks += m['checks']; cur = None; self.finished.add(m['end'])
                    if m.get('data') is not None: self.data[m['end']] = m['data']
                elif 'all' in m: ended = True
                else: self.mism.append(m)
        except OSError:
            pass
        return cur, ended

    def finish(self):
        self.finished = set()
        while True:
            how = self.wait(self.p)
            cur, ended = self.read(self.p)
            if how == 'ok' and ended:
                return
            err = open(self.p.base + '.err').read()[-3000:]
            if how == 'died' and self.p.returncode > 0 or cur is None:
                # an exception of the machinery itself: not a verdict
                raise T.SpecError('driver %s failed (%s, rc=%s):\n%s' % (self.driver, how, self.p.returncode, err))
            item = [x for x in self.items if x[0] == cur]
            p2 = self.spawn(item)
            how2 = self.wait(p2)
            if how2 == 'ok':
                self.read(p2)
            elif how2 == 'died' and p2.returncode > 0:
                raise T.SpecError('driver %s failed:\n%s' % (self.driver, open(p2.base + '.err').read()[-3000:]))
            else:
                said = open(p2.base + '.err', errors='replace').read()[:3000] if getattr(self.ctx, 'child_env', None) else ''
                self.mism.append({'index': cur, 'key': 'crash' if how2 == 'died' else 'hang',
                                  'what': 'the code %s on this behaviour %s' % ('crashed (signal %d)' % -p2.returncode if how2 == 'died' else 'did not return', said)})
                self.finished.add(cur)
            self.left = [x for x in self.items if x[0] not in self.finished]
            if not self.left or len([m for m in self.mism if m.get('key') in ('crash', 'hang')]) >= 3:
                return
            self.p = self.spawn(self.left)
