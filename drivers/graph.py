"""Replays GraphModel histories on FGraphSolve (C++ API), on the Python FGraph, and on FGraphSolveDense."""
import numpy as np, math, zlib, json, sys, types
from drv import *
import fgref
# pybind11 hands sparse matrices to scipy.sparse: a minimal stand-in is enough
if 'scipy' not in sys.modules:
    class csc_matrix:
        def __init__(self, arg, shape):
            d, i, p = arg
            self.m = np.zeros(shape)
            for c in range(shape[1]):
                for k in range(p[c], p[c + 1]): self.m[i[k], c] += d[k]
        def toarray(self): return self.m
    class csr_matrix(csc_matrix):
        def __init__(self, arg, shape):
            csc_matrix.__init__(self, arg, shape[::-1]); self.m = self.m.T
    sp, ss = types.ModuleType('scipy'), types.ModuleType('scipy.sparse')
    ss.csc_matrix, ss.csr_matrix = csc_matrix, csr_matrix
    sp.sparse = ss; sys.modules['scipy'], sys.modules['scipy.sparse'] = sp, ss
NODE = {'F1P2': ('P2', None), 'F2P2': ('P2', 'P2'), 'ODO': ('P2', 'P2'), 'F1L2': ('P2', 'L2'), 'F1P3': ('P3', None),
        'F2P3': ('P3', 'P3'), 'F1L3': ('P3', 'L3'), 'F1PL': ('P3', 'PL'), 'PT2PL': ('P3', None)}
ODIM = {'F1P2': 3, 'F2P2': 3, 'ODO': 3, 'F1L2': 2, 'F1P3': 6, 'F2P3': 6, 'F1L3': 3, 'F1PL': 4, 'PT2PL': 1}
def col(x):
    x = np.asarray(x, float)
    return x.reshape(-1, 1) if x.ndim == 1 else x
def info(rng, d, mode):
    if mode == 0: return np.eye(d)
    M = rng.randn(d, d)
    return M @ M.T / d + np.diag(rng.uniform(0.3, 2, d)) if mode == 1 else np.diag(10.0 ** rng.uniform(-1, 2, d))

class World:
    """numeric content of a history: true states, initial states, observations, information matrices; decided once per history"""
    def __init__(self, rng, hist):
        self.rng = rng
        self.noise = rng.choice([0.0, 1e-6, 1e-3, 0.05, 0.3])        # of the initial states
        self.meas = rng.choice([0.0, 0.0, 1e-7, 0.05, 0.5])          # of the observations
        self.mode = rng.randint(3)
        self.scale = rng.choice([1, 1, 1, 1, 1e-6, 1e6, 1e-10])       # of all information matrices
        self.special = rng.rand() < 0.3                               # axis-aligned worlds: zeros and tiny entries in the Jacobians
        self.far = rng.choice([0, 0, 0, 0, 0, 0, 0, 1e3, 3e4])        # initial positions far away: steps of any length
        self.kind, self.truth, self.start = [], [], []
        self.obs, self.W, self.eobs = [], [], []
        self.sets = {}
        for n, r in enumerate(hist):
            if r['op'] == 'node':
                k = r['kind']; t = self.draw(k)
                self.kind.append(k); self.truth.append(t)
                self.start.append(fgref.boxplus(k, t, rng.randn(fgref.DIM[k]) * (0 if r['anchor'] and rng.rand() < .5 else self.noise)))
                if self.far and k != 'PL': self.start[-1] = self.away(k, self.start[-1])
            elif r['op'] == 'factor':
                f = r['f']; k = f['kind']
                X = self.truth[f['a']]; Y = self.truth[f['b']]
                self.obs.append(self.observe(k, X, Y)); self.W.append(self.scale * info(rng, ODIM[k], self.mode))
            elif r['op'] == 'eigen':
                f = r['f']; k = f['kind']
                self.eobs.append((self.observe(k, self.truth[f['a']], self.truth[f['b']]), info(rng, ODIM[k], self.mode)))
            elif r['op'] == 'set':
                k = self.kind[r['id']]
                self.sets[n] = fgref.boxplus(k, self.truth[r['id']], rng.randn(fgref.DIM[k]) * (self.noise + 1e-2))
    def away(self, k, x):
        x = x.copy(); v = self.far * self.rng.randn(3, 1)
        if k == 'P3': x[:3, 3:] += v
        else: x[:{'P2': 2, 'L2': 2, 'L3': 3}[k]] += v[:{'P2': 2, 'L2': 2, 'L3': 3}[k]]
        return x
    def draw(self, k):
        r = self.rng
        if self.special and k in ('P2', 'L2', 'L3') and r.rand() < 0.8:
            if k == 'P2': return np.array([[float(r.randint(-3, 4))], [float(r.randint(-3, 4))], [r.choice([0, math.pi/2, -math.pi/2, -math.pi, 1e-7, -1e-9, math.pi - 1e-7, math.pi/2 + 1e-8])]])
            if k == 'L2': return np.array([[float(r.choice([-8, 7, 11]))], [float(r.randint(-3, 4))]])
            return r.randint(-5, 6, (3, 1)).astype(float)
        if self.special and k == 'P3' and r.rand() < 0.8:
            w = np.eye(3)[r.randint(3)] * r.choice([0, math.pi/2, -math.pi/2, 1e-7, -1e-9, 3.0])
            return exp_se3(np.r_[w, r.randint(-3, 4, 3).astype(float)])
        if k == 'P2': return np.array([[r.uniform(-3, 3)], [r.uniform(-3, 3)], [r.uniform(-math.pi, math.pi)]])
        if k == 'P3': return exp_se3(np.r_[r.randn(3) * 0.6, r.uniform(-3, 3, 3)])
        if k == 'L2': return np.array([[r.choice([-1, 1]) * r.uniform(6, 12)], [r.uniform(-12, 12)]])
        if k == 'L3': return r.uniform(-9, 9, (3, 1))
        if k == 'PL':
            v = r.randn(3); v /= np.linalg.norm(v)
            return np.r_[v, r.choice([-1, 1]) * r.uniform(12, 20)].reshape(4, 1)
    def observe(self, k, X, Y):
        r, s = self.rng, self.meas
        if k == 'F1P2': return X[:, 0] + r.randn(3) * s
        if k == 'F2P2':
            e, _ = fgref.evaluate('F2P2', np.zeros(3), 0, 1, {0: X, 1: Y}); return e + r.randn(3) * s
        if k == 'ODO':
            d = Y[:2, 0] - X[:2, 0]; a = math.atan2(d[1], d[0]) - X[2, 0]
            return np.array([a, np.linalg.norm(d), Y[2, 0] - X[2, 0] - a]) + r.randn(3) * s
        if k == 'F1L2':
            e, _ = fgref.evaluate('F1L2', np.zeros(2), 0, 1, {0: X, 1: Y}); return e + r.randn(2) * s
        if k == 'F1P3': return exp_se3(r.randn(6) * s) @ X
        if k == 'F2P3': return inv_se3(X) @ Y @ exp_se3(r.randn(6) * s)
        if k == 'F1L3':
            e, _ = fgref.evaluate('F1L3', np.zeros(3), 0, 1, {0: X, 1: Y}); return e + r.randn(3) * s
        if k == 'F1PL':
            l = X.T @ Y[:, 0]; l = l if l[3] > 0 else -l
            l[:3] += r.randn(3) * s * 0.3; l[3] += r.randn() * s
            l[:3] *= r.choice([1, 2.5])
            return l
        if k == 'PT2PL':
            p = r.uniform(-4, 4, 3); n = r.randn(3); n /= np.linalg.norm(n)
            y = X[:3, :3] @ p + X[:3, 3] + np.cross(n, r.randn(3)) + n * r.randn() * s
            return np.c_[p, y, n]

class Driver(Base):
    def run(self, hist):
        rng = np.random.RandomState((zlib.crc32(json.dumps(hist, sort_keys=True).encode()) + self.seed) % 2**31)
        self.w = World(rng, hist)
        self.rng = rng
        self.replay(hist, 'cpp')
        if self.bad: return
        fs = [r['f'] for r in hist if r['op'] == 'factor']
        robs = set(f['rob'] for f in fs)
        if len(robs) <= 1 and not any(f['kind'] == 'ODO' and not f['init'] for f in fs) and not any(r['op'] in ('set', 'eigen', 'detach') for r in hist):
            self.replay(hist, 'py')
        if self.opts.get('dense') and robs <= {0} and not self.bad:
            self.replay(hist, 'dense')

    # ---- one replay ----
    def replay(self, hist, api):
        mx, w = self.mx, self.w
        self.api = api
        n_nodes = 0
        S = {}                    # (node, version) -> state
        handles, fh, eh, fs, anchor = [], [], [], [], []
        probe = mx.Probe() if api != 'py' else None
        if api == 'py':
            rob = {r['f']['rob'] for r in hist if r['op'] == 'factor'}
            rt = [mx.QUADRATIC, mx.HUBER, mx.CAUCHY, mx.MCCLURE, mx.RANSAC][rob.pop()] if rob else mx.QUADRATIC
            g = mx.FGraph(rt)
        else: g = mx.GraphX() if api == 'cpp' else mx.DenseX()
        ver = []
        def cur(i):
            if api == 'cpp' or api == 'dense': return handles[i].state()
            return col(g.get_estimated_state()[i])
        def states(): return [cur(i).copy() for i in range(len(w.kind[:len(ver)]))]
        for n, r in enumerate(hist):
            op = r['op']
            if op == 'node':
                i = len(ver); k = r['kind']
                if api == 'py':
                    mode = (mx.NODE_ANCHOR,) if r['anchor'] else ((mx.NODE_STANDARD,) if n % 2 else ())
                    v = w.start[i]
                    got = {'P2': lambda: g.add_node_pose_2d(v[:, 0], *mode), 'L2': lambda: g.add_node_landmark_2d(v[:, 0], *mode),
                           'P3': lambda: g.add_node_pose_3d(mx.geometry.SE3(v), *mode), 'L3': lambda: g.add_node_landmark_3d(v[:, 0], *mode),
                           'PL': lambda: g.add_node_plane_4d(v[:, 0], *mode)}[k]()
                else:
                    h = mx.node(k, w.start[i], int(r['anchor'])); handles.append(h); probe.node(h)
                    got = g.add_node(h)
                    self.true('registry', h.id() == r['id'], 'node %d has id %d' % (i, h.id()))
                self.true('registry', got == r['id'], 'add_node returned %s instead of %s' % (got, r['id']))
                self.true('registry', g.number_nodes() == r['count'], 'number of nodes')
                if api != 'py': self.true('registry', g.dim_state() == r['sdim'], 'state dimension %d instead of %d' % (g.dim_state(), r['sdim']))
                ver.append(0); anchor.append(r['anchor'])
                S[(i, 0)] = w.start[i]
                if api == 'py': S[(i, 0)] = cur(i).copy()
                else: S[(i, 0)] = h.state().copy()
                self.close('registry', S[(i, 0)], w.start[i], 1e-12 * (1 + np.abs(w.start[i]).max()), 'state of the node just added')
            elif op == 'factor':
                f = r['f']; j = len(fs); k = f['kind']; o = w.obs[j]; W = w.W[j]; a, b = f['a'], f['b']
                before = states()
                if api == 'py': self.pyfactor(g, f, o, W)
                else:
                    h = mx.factor(k, col(o), handles[a], handles[b], W, f['init'], f['rob']); fh.append(h); probe.factor(h)
                    got = g.add_factor(h)
                    self.true('registry', got == r['id'] == h.id(), 'add_factor returned %s' % got)
                    self.true('registry', [x.id() for x in h.nodes()] == r['order'], 'neighbour nodes of factor %d' % j)
                    self.true('registry', g.dim_obs() == r['odim'], 'observation dimension %d instead of %d' % (g.dim_obs(), r['odim']))
                self.true('registry', g.number_factors() == r['count'], 'number of factors')
                fs.append(f)
                after = states()
                for i in range(len(ver)):
                    if r['ver'][i] == ver[i]: self.close('init', after[i], before[i], 0, 'node %d moved when a factor was added' % i)
                    else:
                        e = fgref.initial(k, o, before[a])
                        self.close('init', fgref.boxminus(NODE[k][1], after[i], e), np.zeros(fgref.DIM[NODE[k][1]]), 1e-9 * (1 + np.abs(e).max()), 'initialised node %d: %s instead of %s' % (i, after[i].ravel(), e.ravel()))
                        S[(i, r['ver'][i])] = after[i].copy()
                ver = list(r['ver'])
                if self.bad: return
            elif op == 'eigen':
                f = r['f']; o, W = w.eobs[len(eh)]; before = states()
                h = mx.factor(f['kind'], col(o), handles[f['a']], handles[f['b']], W, False, 0); eh.append(h); probe.factor(h)
                got = g.add_eigen_factor(h)
                self.true('registry', got == r['id'] == h.id(), 'add_eigen_factor returned %s instead of %s' % (got, r['id']))
                self.true('registry', [x.id() for x in h.nodes()] == r['order'], 'neighbour nodes of eigen factor %d' % r['id'])
                self.true('registry', g.number_factors() == r['count'] and g.dim_obs() == r['odim'], 'counts after an eigen factor: %d factors, observation dimension %d' % (g.number_factors(), g.dim_obs()))
                for i, (x, y) in enumerate(zip(before, states())): self.close('registry', y, x, 0, 'adding an eigen factor moved node %d' % i)
            elif op == 'detach':
                t, k = r['what']; q = (fh if t == 'f' else eh)[k]; before = [x.id() for x in q.nodes()]
                x = handles[r['id']]; nf = len(x.factors())
                x.rm_factor(q)
                self.true('registry', len(x.factors()) == nf - 1 and not any(y is q for y in x.factors()), 'factor %s is still attached to node %d' % (r['what'], r['id']))
                self.true('registry', [y.id() for y in q.nodes()] == before and q.id() == k, 'detaching a factor from a node changed the factor')
            elif op == 'set':
                i = r['id']
                h = handles[i] if n % 2 else g.get_node(i)
                h.set_state(col(w.sets[n])); ver = list(r['ver']); S[(i, ver[i])] = handles[i].state().copy()
                self.close('registry', handles[i].state(), w.sets[n], 1e-12 * (1 + np.abs(w.sets[n]).max()), 'state set through the graph')
            elif op == 'solve':
                if not self.solve(g, r, S, ver, fs, cur, anchor, handles, fh): return
                ver = list(r['ver'])
            elif op == 'lm':
                before = states()
                e0 = g.error() if api == 'dense' else g.chi2(True)
                if api == 'dense': g.solve(r['method'] % 3, r['iters'], 10.0 ** (r['method'] - 4))
                elif api == 'py': g.solve(mx.LM, r['iters'], 10.0 ** (r['method'] - 4), 1e-4)
                elif r['iters'] == 20 and r['method'] == 1: g.solve_lm_default()
                else: g.solve(True, r['iters'], 10.0 ** (r['method'] - 4), 1e-4)
                after = states()
                if not all(np.isfinite(x).all() and np.abs(x).max() < 1e6 for x in after): return
                for i in range(len(ver)):
                    if anchor[i]: self.close('anchor', after[i], before[i], 0, 'anchor node %d moved in a damped solve' % i)
                    S[(i, r['ver'][i])] = after[i].copy()
                if api != 'dense' or r['method'] % 3:
                    e1 = g.error() if api == 'dense' else g.chi2(True)
                    self.true('lm', e1 <= e0 * (1 + 1e-9) + 1e-16 * w.scale, 'damped solve ended with error %.12g, started with %.12g' % (e1, e0))
                ver = list(r['ver'])
            elif op == 'chi2':
                before = states()
                if api == 'dense':
                    if not r['eval']: continue
                    got = g.error()
                elif api == 'py': got = g.chi2(r['eval']) if n % 2 or not r['eval'] else g.chi2()
                else: got = g.chi2(r['eval']) if n % 2 or not r['eval'] else g.chi2_default()
                each = self.errors(fs, r['snap'], S)
                if each is not None:
                    tot = sum(each); tols = np.array(self.etol); ttol = tols.sum()
                    self.close('chi2', got, tot, ttol, 'chi2(%s) over %d factors' % (r['eval'], len(fs)))
                    if api != 'dense':
                        arr = np.asarray(g.get_chi2_array() if api == 'py' else g.chi2_array()).ravel()
                        self.true('chi2', len(arr) == len(each) and all(abs(x - y) <= q for x, y, q in zip(arr, each, tols)), 'errors of the factors: %s instead of %s' % (arr, each))
                        self.true('chi2', np.all(arr >= 0), 'negative error')
                for i, (x, y) in enumerate(zip(before, states())): self.close('chi2', y, x, 0, 'asking for the error moved node %d' % i)
            elif op == 'look':
                if api == 'py':
                    st = g.get_estimated_state()
                    self.true('registry', len(st) == len(ver), 'estimated state has %d entries' % len(st))
                    for i in range(len(ver)): self.close('registry', col(st[i]), S[(i, ver[i])], 0, 'estimated state of node %d' % i)
                else:
                    for i in range(len(ver)):
                        x = g.get_node(i)
                        self.true('registry', x is handles[i], 'get_node(%d) is another object' % i)
                        self.true('registry', x.id() == i and x.mode() == int(anchor[i]), 'id or mode of node %d' % i)
                        self.close('registry', x.state(), S[(i, ver[i])], 0, 'state of node %d' % i)
                        self.true('registry', len(x.factors()) == len(r['attached'][i]) and all(q is (fh if t == 'f' else eh)[k] and q.id() == k for q, (t, k) in zip(x.factors(), r['attached'][i])), 'factors of node %d: %s instead of %s' % (i, [q.id() for q in x.factors()], r['attached'][i]))
                    for j in range(len(fs)):
                        self.true('registry', g.get_factor(j) is fh[j] and [x.id() for x in fh[j].nodes()] == r['fnodes'][j], 'get_factor(%d)' % j)
                    self.true('registry', g.dim_state() == r['sdim'] and g.dim_obs() == r['odim'] and g.number_nodes() == len(ver) and g.number_factors() == len(fs), 'dimensions')
                    if api == 'cpp':
                        st = g.state()
                        self.true('registry', len(st) == len(ver), 'estimated state has %d entries' % len(st))
                        for i in range(min(len(st), len(ver))): self.close('registry', col(st[i]), S[(i, ver[i])], 0, 'estimated state of node %d' % i)
                        arr = np.asarray(g.chi2_array()).ravel()
                        self.true('registry', len(arr) == len(fs), 'chi2 array has %d entries' % len(arr))
            elif op == 'bad':
                if api == 'py':
                    if r['what'] == 'node' and r['id'] < 2**31:
                        try:
                            g.add_factor_1pose_3d(mx.geometry.SE3(), r['id'], np.eye(6)); self.true('refuse', False, 'a factor on the unknown node %d was accepted' % r['id'])
                        except Exception: self.true('refuse', True)
                        self.true('refuse', g.number_factors() == len(fs), 'a refused factor was counted')
                else:
                    try:
                        (g.get_node if r['what'] == 'node' else g.get_factor)(r['id']); self.true('refuse', False, 'unknown %s id %d was accepted' % (r['what'], r['id']))
                    except Exception: self.true('refuse', True)
            elif op == 'destroy':
                if api != 'py':
                    self.true('release', probe.nodes() == len(ver) and probe.factors() == len(fs) + len(eh), 'objects lost while the graph lives')
                    x = y = h = q = None
                    handles.clear(); fh.clear(); eh.clear(); del g
                    import gc; gc.collect()
                    self.true('release', probe.nodes() == 0 and probe.factors() == 0, '%d nodes and %d factors outlive their graph' % (probe.nodes(), probe.factors()))
                return
            if self.bad: return

    def pyfactor(self, g, f, o, W):
        k, a, b = f['kind'], f['a'], f['b']; se = self.mx.geometry.SE3
        if k == 'F1P2': g.add_factor_1pose_2d(o, a, W)
        elif k == 'F2P2': g.add_factor_2poses_2d(o, a, b, W, f['init'])
        elif k == 'ODO': g.add_factor_2poses_2d_odom(o, a, b, W)
        elif k == 'F1L2': g.add_factor_1pose_1landmark_2d(o, a, b, W, f['init'])
        elif k == 'F1P3': g.add_factor_1pose_3d(se(o), a, W)
        elif k == 'F2P3': g.add_factor_2poses_3d(se(o), a, b, W, f['init'])
        elif k == 'F1L3': g.add_factor_1pose_1landmark_3d(o, a, b, W, f['init'])
        elif k == 'F1PL': g.add_factor_1pose_1plane_4d(o, a, b, W)
        elif k == 'PT2PL': g.add_factor_1pose_point2plane(o[:, 0], o[:, 1], o[:, 2], a, W)

    def value(self, j, f, snap, S):
        st = {i: S[(i, v)] for i, v in snap}
        return fgref.evaluate(f['kind'], self.w.obs[j], f['a'], f['b'] if NODE[f['kind']][1] else None, st)

    def fragile(self, f, j, r, snap, S):
        """values at a discontinuity of the residual, where rounding decides"""
        k = f['kind']
        if k in ('F1P3', 'F2P3') and np.linalg.norm(r[:3]) > math.pi - 1e-4: return True
        if k in ('F1P2', 'F2P2', 'ODO') and abs(r[2]) > math.pi - 1e-7: return True
        if k == 'F1L2' and abs(r[1]) > math.pi - 1e-7: return True
        if k == 'F1PL':
            st = {i: S[(i, v)] for i, v in snap}
            return abs((st[f['a']].T @ st[f['b']][:, 0])[3]) < 1e-7
        return False

    def rtol(self, f, r):
        """accuracy of a residual in double precision: the logarithm loses digits near half a turn"""
        if f['kind'] in ('F1P3', 'F2P3'):
            a = np.linalg.norm(r[:3])
            return 1e-11 if a < 2.5 else 1e-9 if a < math.pi - 0.05 else 1e-6
        return 1e-12 * 30

    def errors(self, fs, snap, S):
        res = []; self.etol = []
        for j, f in enumerate(fs):
            if not snap[j]: res.append(0.0); self.etol.append(0.0); continue
            if snap[j][0][0] < 0: return None                  # not specified
            r, _ = self.value(j, f, snap[j], S)
            if self.fragile(f, j, r, snap[j], S): return None
            res.append(0.5 * r @ self.w.W[j] @ r)
            self.etol.append(self.rtol(f, r) * np.abs(self.w.W[j]).sum() * (np.abs(r).max() + self.rtol(f, r)) + 1e-12 * res[-1])
        return res

    def solve(self, g, r, S, ver, fs, cur, anchor, handles, fh):
        api, sysm = self.api, r['sys']
        n, m = sysm['n'], sysm['m']
        A = np.zeros((m, n)); W = np.zeros((m, m)); rv = np.zeros(m); W1 = np.zeros((m, m))
        us = []; tr = np.zeros(m); tA = np.zeros(m); tW = np.zeros((m, m))
        for j, (f, lay) in enumerate(zip(fs, sysm['layout'])):
            res, J = self.value(j, f, r['snap'][j], S)
            if self.fragile(f, j, res, r['snap'][j], S): return False
            d, row = lay['dim'], lay['row']
            rv[row:row + d] = res
            for b in lay['blocks']:
                if b['col'] >= 0: A[row:row + d, b['col']:b['col'] + b['w']] = J[:, b['jc']:b['jc'] + b['w']]
            u = math.sqrt(max(0, res @ self.w.W[j] @ res))
            if f['rob'] in (1, 4) and abs(u - 1) < 1e-6: return False
            us.append(u)
            tr[row:row + d] = self.rtol(f, res); tA[row:row + d] = 1e-11 * (1 + np.abs(J).max()) * (100 if tr[row] > 1e-10 else 1)
            tW[row:row + d, row:row + d] = np.abs(self.w.W[j]).max() * (1e-13 if f['rob'] == 0 else min(1, max(1e-9, 30 * tr[row] * math.sqrt(np.abs(self.w.W[j]).sum()))))
            W[row:row + d, row:row + d] = fgref.weight(f['rob'], u) * self.w.W[j]
            W1[row:row + d, row:row + d] = self.w.W[j]
        L = A.T @ W @ A; bv = A.T @ W @ rv
        # elementwise bounds by propagation, so that small entries count too
        aA, aW, ar = np.abs(A), np.abs(W), np.abs(rv)
        col1 = np.ones((1, n)) if n else np.ones((1, 0))
        tAm = tA[:, None] * col1
        tL = tAm.T @ aW @ aA + aA.T @ aW @ tAm + aA.T @ tW @ aA + 1e-13 * aA.T @ aW @ aA
        tb = tAm.T @ aW @ ar + aA.T @ tW @ ar + aA.T @ aW @ tr + 1e-13 * aA.T @ aW @ ar
        before = [cur(i).copy() for i in range(len(ver))]
        cond = np.linalg.cond(L)
        if not np.isfinite(cond) or cond > 1e8: return False      # too ill conditioned to compare
        dx = np.linalg.solve(L, bv)
        if api == 'dense':
            g.build()
            self.within('dense', g.grad().ravel(), bv, tb, 'gradient of the dense solver')
            self.within('dense', g.hess(), L, tL, 'Hessian of the dense solver')
            self.close('dense', g.error(), 0.5 * rv @ W @ rv, 1e-12 * (ar @ aW @ ar) + tr @ aW @ (ar + tr), 'error of the dense solver')
            for i in range(len(ver)): self.close('dense', cur(i), before[i], 0, 'building moved node %d' % i)
            it = g.solve(0, 1, 0.0)
        elif api == 'py': g.solve() if len(ver) % 2 else g.solve(self.mx.GN)
        else: g.solve_default() if len(ver) % 2 else g.solve(False, 5, 0.5, 1e-3)
        if api != 'dense':
            gA, gW, gL, gb = (g.A(), g.W(), g.L(), g.b()) if api == 'cpp' else tuple(x.toarray() for x in (g.get_adjacency_matrix(), g.get_W_matrix(), g.get_information_matrix())) + (g.get_vector_b(),)
            self.within('system', gA, A, tAm * (A != 0) + 1e-11 * (A == 0) * (aA.max(axis=1, keepdims=True) if n else 1), 'adjacency matrix')
            if gW.shape == W.shape:
                wkey = 'weight' if any(f['rob'] for f in fs) else 'system'
                self.within(wkey, np.triu(gW), np.triu(W), np.triu(tW), 'W matrix (kernels %s, distances %s)' % ([f['rob'] for f in fs], us))
                lo = np.tril(gW, -1)
                self.true('system', not lo.any() or np.allclose(lo, np.triu(gW, 1).T), 'lower triangle of W')
            else: self.close('system', gW, W, 1e-9, 'W matrix')
            self.within('system', np.tril(gL), np.tril(L), np.tril(tL), 'information matrix')
            self.within('system', np.asarray(gb).ravel(), bv, tb, 'vector b')
        for i in range(len(ver)):
            k = self.w.kind[i]
            after = cur(i)
            if anchor[i]:
                self.close('anchor', after, before[i], 0, 'anchor node %d moved in a solve' % i)
                continue
            c = [b['col'] for lay in sysm['layout'] for b in lay['blocks'] if b['node'] == i][0]
            d = dx[c:c + fgref.DIM[k]]
            e = fgref.boxplus(k, before[i], -d)
            # relative to the size of the step, so that small steps count too
            tol = (1e-8 + 1e-13 * cond) * np.linalg.norm(dx) * (1 + np.abs(e).max()) + (1e-12 + 4e-15 * cond) * (1 + np.abs(rv).max()) * (1 + np.abs(e).max())
            if k == 'P3' and np.linalg.norm(ln_so3(e[:3, :3])) > math.pi - 1e-2: tol += 1e-5
            diff = after - e
            if k == 'P2': diff[2, 0] = wrap(diff[2, 0])
            key = 'dense' if api == 'dense' else 'step'
            self.close(key, diff, 0 * diff, tol, 'node %d (%s) after the step: %s instead of %s' % (i, k, after.ravel().tolist(), e.ravel().tolist()))
            S[(i, r['ver'][i])] = after.copy()
        if self.bad: return False
        if self.opts.get('shuffle') and api == 'cpp': self.shuffled(g, r, fs, before, handles, anchor, dx, cond)
        # the step minimises the linearised problem: any other step is worse (stationarity, independent of how L was formed)
        if r['linear'] and api != 'dense' and not self.bad:
            # a linear problem is solved by one step
            st = {i: S[(i, r['ver'][i])] for i in range(len(ver))}
            grad = np.zeros(n); big = 1.0
            for j, (f, lay) in enumerate(zip(fs, sysm['layout'])):
                res, J = fgref.evaluate(f['kind'], self.w.obs[j], f['a'], f['b'] if NODE[f['kind']][1] else None, st)
                for b in lay['blocks']:
                    if b['col'] >= 0: grad[b['col']:b['col'] + b['w']] += J[:, b['jc']:b['jc'] + b['w']].T @ self.w.W[j] @ res
            # angles are linear as long as none goes around: residuals below 1.5 before and after, steps below 0.75
            st0 = {i: np.asarray(before[i]) for i in range(len(ver))}
            turn = max([abs(dx[b['col'] + 2]) for lay in sysm['layout'] for b in lay['blocks'] if b['col'] >= 0 and self.w.kind[b['node']] == 'P2'] or [0])
            if turn < 0.75 and not any(f['kind'] in ('F1P2', 'F2P2') and (self.wrapped(f, j, st) or self.wrapped(f, j, st0)) for j, f in enumerate(fs)):
                self.close('step', grad, 0 * grad, 1e-8 * np.abs(L).max() * (1e-3 + np.abs(dx).max()), 'gradient after one step on a linear problem')
        return True

    def within(self, key, got, exp, tol, what):
        """elementwise comparison"""
        got = np.asarray(got, float); exp = np.asarray(exp, float)
        if got.shape != exp.shape: return self.close(key, got, exp, 0, what)
        bad = ~(np.abs(got - exp) <= tol)
        i = tuple(np.argwhere(bad)[0]) if bad.any() else ()
        self.true(key, not bad.any(), '%s: entry %s is %s instead of %s' % (what, [int(x) for x in i], got[i] if i else '', exp[i] if i else ''))

    def shuffled(self, g, r, fs, before, handles, anchor, dx, cond):
        """the same problem with factors (and nodes, keeping the order of poses joined by a relative factor) inserted in another order"""
        mx, w, rng = self.mx, self.w, self.rng
        n = len(before)
        perm = list(rng.permutation(n))                       # position -> node
        pos = {x: p for p, x in enumerate(perm)}
        if any(f['kind'] in ('F2P3', 'ODO') and (f['a'] < f['b']) != (pos[f['a']] < pos[f['b']]) for f in fs): perm = list(range(n))
        g2 = mx.GraphX(); h2 = {}
        for x in perm:
            h2[x] = mx.node(w.kind[x], before[x], int(anchor[x])); g2.add_node(h2[x])
            h2[x].set_state(before[x])
        keep = []
        for j in rng.permutation(len(fs)):
            f = fs[j]; q = mx.factor(f['kind'], col(w.obs[j]), h2[f['a']], h2[f['b']], w.W[j], False, f['rob']); keep.append(q); g2.add_factor(q)
        g2.solve(False, 1, 0.0, 0.0)
        for i in range(n):
            d = h2[i].state() - handles[i].state()
            if w.kind[i] == 'P2': d[2, 0] = wrap(d[2, 0])
            self.close('order', d, 0 * d, (1e-8 + 1e-13 * cond) * (1 + np.linalg.norm(dx)) * (1 + np.abs(before[i]).max()), 'node %d depends on the insertion order' % i)

    def wrapped(self, f, j, st):
        r, _ = fgref.evaluate(f['kind'], self.w.obs[j], f['a'], f['b'] if NODE[f['kind']][1] else None, st)
        return abs(r[2]) > 1.5
