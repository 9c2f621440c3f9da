"""Replays ValueSemantics programs on the Python interface of the library.  Every term is evaluated alone, in a process of
its own forked before the library was used, on fresh objects and plain arrays; every variable is compared after every event."""
import os, sys, pickle, struct, signal
import numpy as np
from drv import *
import graph as _graph      # installs the stand-in for scipy.sparse
NPTS = {'A': 6, 'B': 9}
OBJ = ('SO3', 'SE3', 'SE3Cov', 'graph', 'reg')
def rng(kind, i, seed=0): return np.random.RandomState((hash_(kind) * 1009 + i * 31 + seed) % 2**31)
def hash_(s): return sum((j + 1) * ord(c) for j, c in enumerate(s))
def spd(r, n):
    A = np.round(r.uniform(-1, 1, (n, n)) * 16) / 16
    return A @ A.T + np.eye(n) * 2
def number(kind, i):
    """the numbers of a literal: multiples of 1/16 wherever the kind allows it"""
    r = rng(kind, i)
    f = lambda lo, hi, *s: np.round(r.uniform(lo, hi, s) * 16) / 16
    if kind == 'vec2': return f(-3, 3, 2)
    if kind == 'vec3': return f(-2, 2, 3)
    if kind == 'vec6': return f(-2, 2, 6)
    if kind == 'quat': q = f(-2, 2, 4) + [3, 0, 0, 0]; return q / np.linalg.norm(q)
    if kind == 'plane': n = f(-2, 2, 4) + [0, 0, 3, 0]; return n / np.linalg.norm(n[:3])
    if kind == 'mat3': return exp_so3(f(-2, 2, 3))
    if kind == 'mat4': return exp_se3(f(-2, 2, 6))
    if kind in ('inf1', 'inf2', 'inf3', 'inf4'): return spd(r, int(kind[3]))
    if kind == 'mat6': return spd(r, 6) / 8
    n = NPTS.get(kind[-1])
    if kind.startswith('pts'): return f(-4, 4, n, 3)
    if kind[0] == 'w': return f(0.5, 3, n)
    if kind.startswith('cov'): return np.vstack([spd(r, 3) / 4 for _ in range(n)])
    raise KeyError(kind)
def rounded(x, how):
    if how == 'f32': return x.astype(np.float32).astype(float)
    if how == 'int': return np.round(x).astype(np.int64).astype(float)
    return x
def stored(x, lay):
    """the numbers, stored in some way"""
    if lay == 'f32': return x.astype(np.float32)
    if lay == 'int': return np.round(x).astype(np.int64)
    if lay == 'list': return x.tolist()
    if lay == 'F': return np.asfortranarray(x)
    if lay == 'T': return np.ascontiguousarray(x.T).T
    if lay == 'ro': y = x.copy(); y.setflags(write=False); return y
    if lay == 'col': return x.reshape(-1, 1).copy()
    if lay == 'strided':
        y = np.full([2 * n + 1 for n in x.shape], 77.25); v = y[tuple(slice(1, None, 2) for _ in x.shape)]; v[...] = x; return v
    if lay == 'sub':
        y = np.full([n + 3 for n in x.shape], -55.5); v = y[tuple(slice(1, n + 1) for n in x.shape)]; v[...] = x; return v
    if lay == 'rev':
        s = tuple(slice(None, None, -1) for _ in x.shape); return x[s].copy()[s]
    if lay == 'revrow': return x[::-1].copy()[::-1]
    if lay == 'skip': return np.repeat(x, 3, axis=0)[::3]
    return np.array(x, order='C')

class Interp:
    """the operations, as calls of the library. d: arguments with a documented default are left out where they have it"""
    def __init__(self, mx):
        self.mx, self.g, self.r = mx, mx.geometry, mx.registration
        self.kernel = [mx.QUADRATIC, mx.CAUCHY, mx.HUBER, mx.MCCLURE]
        r = self.r
        self.modes = [r.INITIALIZE, r.GRADIENT_BENGIOS_NAG, r.GN_HESSIAN, r.LM_SPHER, r.LM_ELLIP, r.GRADIENT_BENGIOS_NAG]
    def lit(self, k, i, d):
        g = self.g
        if k == 'SO3': return g.SO3(number('vec3', 50 + i))
        if k == 'SE3': return g.SE3(number('vec6', 50 + i) / 2)
        if k == 'SE3Cov': return g.SE3Cov(g.SE3(number('vec6', 70 + i)), number('mat6', 70 + i))
        if k == 'graph':
            q = self.kernel[(i - 1) % 4]
            return self.mx.FGraph() if d and q == self.mx.QUADRATIC else self.mx.FGraph(q)
        if k == 'reg':
            reg = self.r.PlaneRegistration()
            if i == 1: reg.set_number_planes_and_poses(3, 2); return reg
            reg.set_number_planes_and_poses(3, 3)
            rr = rng('regdata', i)
            last = rr.uniform(-0.2, 0.2, 6)
            for p in (1, 2, 3):
                reg.add_plane(p)
                B = exp_so3(rr.uniform(-1, 1, 3)); c = rr.uniform(-2, 2, 3) + 2 * np.eye(3)[p - 1]
                E = np.roll(np.eye(3), p, axis=0)
                for t in range(3):
                    M = inv_se3(exp_se3(t / 2 * last))
                    for _ in range(6):
                        a, b, n = rr.uniform(-1, 1), rr.uniform(-1, 1), rr.normal() * 0.01
                        x = c + a * E[0] + b * E[1] + n * E[2]
                        reg.plane_push_back_point(p, t, M[:3, :3] @ x + M[:3, 3])
            return reg
        raise KeyError(k)
    def call(self, op, a, p, d):
        """returns (value or object, returned value)"""
        g, r, mx = self.g, self.r, self.mx
        o = a[0]
        std = lambda m: mx.NODE_ANCHOR if m else mx.NODE_STANDARD
        def node(f, x, m): return f(x) if d and not m else f(x, std(m))
        def flag(f, args, u): return f(*args) if d and not u else f(*args, bool(u))
        both = lambda x: (x, None)
        one = {
            'SO3exp': lambda: g.SO3(o), 'SO3mat': lambda: g.SO3(o), 'SO3copy': lambda: g.SO3(o), 'SO3R': lambda: o.R(), 'SO3mul': lambda: o.mul(a[1]), 'SO3Ln': lambda: o.Ln(),
            'SO3inv': lambda: o.inv(), 'SO3adj': lambda: o.adj(), 'SO3dist': lambda: o.distance(a[1]), 'isSO3': lambda: g.isSO3(o), 'hat3': lambda: g.hat3(o), 'q2R': lambda: g.quat_to_so3(o),
            'R2q': lambda: g.so3_to_quat(o), 'rpy': lambda: g.rpy_to_so3(o), 'SE3RT': lambda: g.SE3(o, a[1]), 'SE3R': lambda: o.R(),
            'SE3exp': lambda: g.SE3(o), 'SE3mat': lambda: g.SE3(o), 'SE3copy': lambda: g.SE3(o), 'SE3T': lambda: o.T(), 'SE3t': lambda: o.t(), 'SE3mul': lambda: o.mul(a[1]), 'SE3star': lambda: o * a[1],
            'SE3Ln': lambda: o.Ln(), 'SE3inv': lambda: o.inv(), 'SE3adj': lambda: o.adj(), 'act': lambda: o.transform(a[1]), 'actA': lambda: o.transform_array(a[1]), 'actB': lambda: o.transform_array(a[1]),
            'SE3dist': lambda: o.distance(a[1]), 'SE3distR': lambda: o.distance_rotation(a[1]), 'SE3distT': lambda: o.distance_trans(a[1]),
            'SE3dist1': lambda: o.distance() if d else o.distance(g.SE3()), 'SE3distR1': lambda: o.distance_rotation() if d else o.distance_rotation(g.SE3()),
            'SE3distT1': lambda: o.distance_trans() if d else o.distance_trans(g.SE3()), 'isSE3': lambda: g.isSE3(o), 'hat6': lambda: g.hat6(o),
            'Cov': lambda: g.SE3Cov(o, a[1]), 'CovCopy': lambda: g.SE3Cov(o), 'CovC': lambda: o.cov(), 'CovT': lambda: o.T(), 'Cov2': lambda: o.compound_2nd_order(a[1]),
            'Cov2b': lambda: o.compound_2nd_order(a[1], a[2]), 'Cov4': lambda: o.compound_4th_order(a[1]), 'Cov4b': lambda: o.compound_4th_order(a[1], a[2]), 'CovMul': lambda: o.mul(a[1]),
            'CovStar': lambda: o * a[1], 'CovAsPose': lambda: o.mul(a[1]), 'curly': lambda: g.curley_wedge(o),
            'planeA': lambda: r.estimate_plane(o), 'planeB': lambda: r.estimate_plane(o), 'normA': lambda: r.estimate_normal(o), 'normB': lambda: r.estimate_normal(o),
            'cenA': lambda: r.estimate_centroid(o), 'cenB': lambda: r.estimate_centroid(o), 'arunA': lambda: r.arun(o, a[1]), 'arunB': lambda: r.arun(o, a[1]),
            'weiA': lambda: r.weighted(o, a[1], a[2]), 'weiB': lambda: r.weighted(o, a[1], a[2]),
            'gStates': lambda: [np.asarray(x) for x in o.get_estimated_state()], 'gB': lambda: o.get_vector_b(), 'gInfo': lambda: o.get_information_matrix().toarray(), 'gAdj': lambda: o.get_adjacency_matrix().toarray(),
            'gW': lambda: o.get_W_matrix().toarray(), 'gChiArr': lambda: o.get_chi2_array(), 'gCount': lambda: [o.number_nodes(), o.number_factors()],
            'rTraj': lambda: o.get_trajectory(p[0] - 1), 'rTail': lambda: o.get_last_pose(), 'rCloud': lambda: [np.asarray(x) for x in o.get_point_cloud(p[0] - 1)], 'rNum': lambda: o.get_number_poses(),
        }
        if op in ('gicpA', 'gicpB'):
            X = np.asarray(a[0], float); T = np.asarray(a[1].T())
            Y = X @ T[:3, :3].T + T[:3, 3] + 0.01 * np.sin(np.arange(X.size)).reshape(X.shape)
            return r.gicp(a[0], Y, a[2], a[3]), None
        if op in one: return one[op](), None
        upd = {'SO3lhs': 'update_lhs', 'SO3rhs': 'update_rhs', 'SO3upd': 'update', 'SE3lhs': 'update_lhs', 'SE3rhs': 'update_rhs', 'SE3upd': 'update', 'CovLhs': 'update_lhs'}
        if op in upd:
            m = upd[op]
            if m == 'update' and not d: m = 'update_lhs'      # documented: by default this is lhs
            getattr(o, m)(a[1]); return o, None
        I = [x - 1 for x in p]
        mut = {
            'gP2': lambda: node(o.add_node_pose_2d, a[1], p[0]), 'gL2': lambda: node(o.add_node_landmark_2d, a[1], p[0]), 'gP3': lambda: node(o.add_node_pose_3d, a[1], p[0]),
            'gL3': lambda: node(o.add_node_landmark_3d, a[1], p[0]), 'gPL': lambda: node(o.add_node_plane_4d, a[1], p[0]),
            'gF1P2': lambda: o.add_factor_1pose_2d(a[1], I[0], a[2]), 'gF2P2': lambda: flag(o.add_factor_2poses_2d, (a[1], I[0], I[1], a[2]), p[2]),
            'gODO': lambda: o.add_factor_2poses_2d_odom(a[1], I[0], I[1], a[2]), 'gF1L2': lambda: flag(o.add_factor_1pose_1landmark_2d, (a[1], I[0], I[1], a[2]), p[2]),
            'gF1P3': lambda: o.add_factor_1pose_3d(a[1], I[0], a[2]), 'gF2P3': lambda: flag(o.add_factor_2poses_3d, (a[1], I[0], I[1], a[2]), p[2]),
            'gF1L3': lambda: flag(o.add_factor_1pose_1landmark_3d, (a[1], I[0], I[1], a[2]), p[2]), 'gF1PL': lambda: o.add_factor_1pose_1plane_4d(a[1], I[0], I[1], a[2]),
            'gPT': lambda: o.add_factor_1pose_point2plane(a[1], a[2], a[3], I[0], a[4]),
            'gSolve': lambda: self.gsolve(o, p[0], d), 'gChi2': lambda: (o.chi2() if d else o.chi2(True)) if p[0] else o.chi2(False),
            'rSet': lambda: o.set_number_planes_and_poses(*p), 'rAdd': lambda: o.add_plane(p[0]), 'rSee': lambda: [o.plane_push_back_point(p[0], p[1] - 1, x) for x in a[1]] and None,
            'rLast': lambda: o.initialize_last_pose_solution(a[1]), 'rReset': lambda: o.reset_solution(), 'rSolve': lambda: self.rsolve(o, p[0], d), 'rErr': lambda: o.get_error(),
        }
        res = mut[op]()
        return o, res
    def gsolve(self, o, m, d):
        mx = self.mx
        if m == 0: o.solve() if d else o.solve(mx.GN, 30, 1e-6, 1e-2)
        elif m == 1: o.solve(mx.LM) if d else o.solve(mx.LM, 30, 1e-6, 1e-2)
        else: o.solve(mx.LM, 2, 0.5, 1e-4)
    def rsolve(self, o, m, d):
        single = m in (1,)
        if m == 1: return o.solve() if False else o.solve(self.modes[1], True)
        if m == 5: return o.solve() if d else o.solve(self.modes[5], False)
        return o.solve(self.modes[m]) if d else o.solve(self.modes[m], single)
    def snap(self, x):
        if x is None or isinstance(x, (int, float, bool, np.integer, np.floating, np.bool_)): return x if x is None else float(x)
        if isinstance(x, np.ndarray): return np.array(x, float)
        if isinstance(x, (list, tuple)): return [self.snap(y) for y in x] if not x or not np.isscalar(x[0]) else np.array(x, float)
        g = self.g
        if isinstance(x, g.SE3Cov): return [np.array(x.T()), np.array(x.cov())]
        if isinstance(x, g.SO3): return np.array(x.R())
        if isinstance(x, g.SE3): return np.array(x.T())
        if isinstance(x, self.mx.FGraph): return [float(x.number_nodes()), float(x.number_factors())] + [np.array(s, float) for s in x.get_estimated_state()]
        if isinstance(x, self.r.PlaneRegistration): return [np.array(x.get_trajectory(t).T()) for t in range(x.get_number_poses())]
        raise TypeError(type(x))

class Alone:
    """a process that has not used the library; evaluates every term in a fork of its own"""
    def __init__(self, mx):
        self.mx = mx
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(a[1]); os.close(b[0]); self.rd, self.wr = a[0], b[1]
            try: self.serve()
            finally: os._exit(0)
        os.close(a[0]); os.close(b[1]); self.wr, self.rd = a[1], b[0]
    def send(self, fd, x):
        s = pickle.dumps(x, 4); s = struct.pack('<Q', len(s)) + s
        while s: s = s[os.write(fd, s):]
    def recv(self, fd):
        def get(n):
            s = b''
            while len(s) < n:
                c = os.read(fd, n - len(s))
                if not c: return None
                s += c
            return s
        h = get(8)
        if h is None: return None
        s = get(struct.unpack('<Q', h)[0])
        return None if s is None else pickle.loads(s)
    def ask(self, terms, wanted): self.send(self.wr, (terms, wanted)); return self.recv(self.rd)
    def serve(self):
        while True:
            q = self.recv(self.rd)
            if q is None: os._exit(0)
            terms, wanted = q
            res = {}
            for t in wanted:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r); signal.alarm(30)
                    try: self.send(w, self.value(terms, t))
                    except Exception as e: self.send(w, ('error', repr(e)))
                    os._exit(0)
                os.close(w); res[t] = self.recv(r); os.close(r); os.waitpid(pid, 0)
            self.send(self.wr, res)
    def value(self, terms, t):
        I = Interp(self.mx)
        dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
        def build(t):
            """the object or array of a term, made afresh"""
            e = terms[t - 1]
            if e['op'] == 'lit': return I.lit(e['k'], e['p'][0], False) if e['k'] in OBJ else np.ascontiguousarray(rounded(number(e['k'], e['p'][0]), e['r'])), None
            if e['op'] == 'zero': return None, None
            return I.call(e['op'], [build(x)[0] for x in e['a']], e['p'], False)
        x, ret = build(t)
        return ('ok', I.snap(x), I.snap(ret))

def same(got, exp, tol):
    """'' or the difference"""
    if isinstance(exp, np.ndarray) and isinstance(got, list): got = np.array(got, float)
    if isinstance(exp, list) or isinstance(got, list):
        if not (isinstance(exp, list) and isinstance(got, list)) or len(got) != len(exp): return 'got %s expected %s' % (got, exp)
        for x, y in zip(got, exp):
            d = same(x, y, tol)
            if d: return d
        return ''
    if exp is None or got is None: return '' if exp is None and got is None else 'got %s expected %s' % (got, exp)
    a, b = np.asarray(got, float), np.asarray(exp, float)
    if a.shape != b.shape and not (a.size == b.size and a.squeeze().shape == b.squeeze().shape): return 'got shape %s expected %s' % (a.shape, b.shape)
    a, b = a.squeeze(), b.squeeze()
    if b.size == 0: return ''
    if not np.all(np.isfinite(b)) or np.max(np.abs(b)) > 1e8: return ''          # nothing is promised beyond
    if not np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b)))): return 'got %s expected %s' % (np.array2string(a, precision=10, threshold=60), np.array2string(b, precision=10, threshold=60))
    return ''

def plain(y): return not isinstance(y, (np.ndarray, list)) or isinstance(y, np.ndarray) and y.dtype == float and y.strides == np.empty(y.shape).strides and y.flags.writeable
class Driver(Base):
    def setup(self):
        self.refused = 0
        self.light = self.opts.get('keys') == ['nothing']       # only executed, nothing compared
        self.alone = None if self.light else Alone(self.mx)
        self.I = Interp(self.mx)
        dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
    def run(self, item):
        hist, terms = item['hist'], item['term']
        I = self.I
        # ToJson writes empty sequences as []
        wanted = sorted({h['t'] for h in hist if h['e'] == 'call'} | {v for h in hist for v in h['v'] if v})
        ref = {} if self.light else self.alone.ask(terms, [t for t in wanted if terms[t - 1]['op'] != 'zero'])
        if ref is None: raise RuntimeError('the evaluating process ended')
        val = {}
        n = len(hist[0]['v']); X = [None] * (n + 1); kind = [None] * (n + 1)
        tol = self.opts.get('tol', 1e-8)
        for k, h in enumerate(hist):
            what = 'event %d %s%s %s' % (k + 1, h['op'], h['p'], h['lay'] if h['e'] == 'lit' else '')
            s, p = h['s'], h['p']; d = h['d']
            if h['e'] == 'lit':
                X[s] = I.lit(h['k'], p[0], d) if h['k'] in OBJ else stored(number(h['k'], p[0]), h['lay']); kind[s] = h['k']
            elif h['e'] == 'drop': X[s] = None
            elif h['e'] == 'scrib': self.overwrite(X[s], h['k'], p[0])
            else:
                args = [X[i] for i in h['a']]
                e = ref.get(h['t'])
                try:
                    try: x, ret = I.call(h['op'], args, p, d)
                    except TypeError:       # refused: that is a clear answer to an array stored in an unusual way, and must leave everything as it was
                        if all(plain(y) for y in args): raise
                        self.refused += 1
                        x, ret = I.call(h['op'], [y if plain(y) else np.array(y, float, order='C') for y in args], p, d)
                except Exception as ex:
                    if e is not None and e[0] == 'ok': self.true('value', False, what + ': %r, but alone, on plain arrays, it succeeds' % ex)
                    self.bad = True; return
                if self.light:
                    if h['k'] not in ('mut', 'num'): X[s] = x; kind[s] = h['k']
                    continue
                if e is None or e[0] != 'ok': self.true('value', False, what + ': alone, on plain arrays: %s' % (e,)); return
                if h['k'] == 'mut': dd = same(I.snap(ret), e[2], tol)
                else: dd = same(I.snap(x), e[1], tol)
                self.true('value', not dd, what + ' (arguments %s): returned %s' % ([h['a'][i] for i in range(len(args))], dd))
                if h['k'] == 'mut':
                    if self.bad: return
                elif h['k'] != 'num': X[s] = x; kind[s] = h['k']
            for i, v in enumerate(h['v'], 1):
                if not v or self.light: continue
                if terms[v - 1]['op'] == 'zero':
                    self.true('value', all(np.all(np.asarray(y) == 7) for y in (X[i] if isinstance(X[i], list) else [X[i]])), what + ': an array the user overwrote changed (variable %d)' % i); continue
                e = ref.get(v)
                if e is None or e[0] != 'ok': self.true('value', False, what + ': alone: %s' % (e,)); return
                dd = same(I.snap(X[i]), e[1], tol)
                self.true('value', not dd, what + ': variable %d (value of term %d, %s): %s' % (i, v, terms[v - 1]['op'], dd))
            if self.bad: return
        self.data = self.refused
    def overwrite(self, x, kind, i):
        if kind == 'out':
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, np.ndarray) and y.flags.writeable: y[...] = 7
            if isinstance(x, list):
                for j, y in enumerate(x):
                    if not isinstance(y, np.ndarray): x[j] = 7
                    elif not y.flags.writeable: x[j] = np.full(y.shape, 7.)
            return
        v = number(kind, i)
        if isinstance(x, list): x[:] = v.tolist()
        else:
            if x.dtype.kind == 'i': v = np.round(v)
            x[...] = v.reshape(x.shape)
