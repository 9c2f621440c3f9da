"""Run TLC on a specification of /verif/spec in a scratch directory and collect what it prints.

A run is described by the root module, the values of its constants (TLA+ text), and what to check.
Specifications print generated behaviours as "@@<json>" lines.
"""
import json, os, re, shutil, subprocess, tempfile, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')

class SpecError(Exception):
    """the specification itself is wrong or TLC could not decide: an error of the check, never a verdict on the code"""

class Result:
    def __init__(self):
        self.items, self.states, self.distinct, self.depth = [], 0, 0, 0
        self.ok, self.kind, self.out, self.wall = False, '', '', 0.0

def tla(v):
    """python value -> TLA+ text"""
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return json.dumps(v)
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(tla(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, dict): return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']' if v else '<<>>'
    if isinstance(v, Raw): return v.s
    raise TypeError(repr(v))

class Raw:
    def __init__(self, s): self.s = s

def run(module, consts=None, invariants=(), properties=(), view=None, constraints=(), action_constraints=(),
        spec='Spec', simulate=None, depth=None, seed=1, workers=8, timeout=300, postcondition=None, files=None,
        heap='8g', extra=(), must_hold=True, dump_trace=False):
    """simulate: number of behaviours. files: {name: text} written beside the modules (e.g. traces)."""
    d = tempfile.mkdtemp(prefix='tlc_')
    t0 = time.time()
    try:
        for f in glob.glob(os.path.join(SPEC, '*.tla')):
            shutil.copy(f, d)
        for n, txt in (files or {}).items():
            with open(os.path.join(d, n), 'w') as fh:
                fh.write(txt)
        root = 'MCrun'
        lines, cfg = ['---- MODULE %s ----' % root, 'EXTENDS %s' % module], []
        cfg.append('SPECIFICATION %s' % spec)
        if consts:
            cfg.append('CONSTANTS')
            for k, v in consts.items():
                lines.append('mc_%s == %s' % (k, tla(v) if not isinstance(v, Raw) else v.s))
                cfg.append('  %s <- mc_%s' % (k, k))
        lines.append('====')
        for x in invariants: cfg.append('INVARIANT ' + x)
        for x in properties: cfg.append('PROPERTY ' + x)
        for x in constraints: cfg.append('CONSTRAINT ' + x)
        for x in action_constraints: cfg.append('ACTION_CONSTRAINT ' + x)
        if view: cfg.append('VIEW ' + view)
        if postcondition: cfg.append('POSTCONDITION ' + postcondition)
        cfg.append('CHECK_DEADLOCK FALSE')
        open(os.path.join(d, root + '.tla'), 'w').write('\n'.join(lines) + '\n')
        open(os.path.join(d, root + '.cfg'), 'w').write('\n'.join(cfg) + '\n')
        cp = '/opt/veriftools/tla/tla2tools.jar'
        cmd = ['tlc', '-config', root + '.cfg', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(seed)]
            if depth: cmd += ['-depth', str(depth)]
        cmd += list(extra) + [root + '.tla']
        env = dict(os.environ)
        env['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -Djava.io.tmpdir=%s' % (heap, d)
        outp = os.path.join(d, 'out.txt')
        with open(outp, 'w') as fh:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout, env=env)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise SpecError('TLC did not finish %s in %d s' % (module, timeout))
        r = Result()
        rest = []
        with open(outp) as fh:
            for line in fh:
                if line.startswith('"@@'):
                    r.items.append(json.loads(json.loads(line)[2:]))
                elif not line.startswith(('Parsing file', 'Semantic processing', 'Linting')):
                    rest.append(line)
        r.out = ''.join(rest)
        for m in re.finditer(r'(\d[\d,]*) states generated(?:, | \()(\d[\d,]*)? ?distinct states found', r.out):
            r.states, r.distinct = int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))
        m = re.search(r'number of states generated: ([\d,]+)', r.out)
        if m: r.states = int(m.group(1).replace(',', ''))
        m = re.search(r'depth of the complete state graph search is (\d+)', r.out)
        if m: r.depth = int(m.group(1))
        r.rc = rc
        r.ok = rc == 0
        r.wall = time.time() - t0
        if not r.ok:
            r.kind = 'violated' if re.search(r'is violated|was violated|Postcondition|POSTCONDITION', r.out) else 'error'
            if must_hold or r.kind == 'error':
                raise SpecError('TLC on %s ended with %d:\n%s' % (module, rc, r.out[-6000:]))
        return r
    finally:
        shutil.rmtree(d, True)

def simulate(module, num, depth, seed=1, procs=6, **kw):
    """num behaviours drawn by `procs` single-threaded (hence reproducible) TLC simulations in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    per = -(-num // procs)
    kw['workers'] = 1
    kw.setdefault('heap', '2g')
    kw.setdefault('spec', 'SimSpec')
    with ThreadPoolExecutor(max_workers=procs) as ex:
        rs = list(ex.map(lambda i: run(module, simulate=per, depth=depth, seed=seed * 1000 + i, **kw), range(procs)))
    r = rs[0]
    for x in rs[1:]:
        r.items += x.items
        r.states += x.states
    r.wall = max(x.wall for x in rs)
    return r
