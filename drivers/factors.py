"""Replays FactorModel behaviours: residual, Jacobian, error and initialisation of one factor."""
import numpy as np, math, zlib, json
from drv import *
import fgref

def val_p2(v): return np.array([v['x'], v['y'], math.atan2(v['g'][1], v['g'][0]) + 2*math.pi*v['k']])
def term(t): return t[0] / (t[1] * math.sqrt(t[2]))
def comp(c):
    s = sum(term(t) for t in c['s'])
    if c['g'] != [0, 0]: s += math.atan2(c['g'][1], c['g'][0])
    return s
NK = {'F1P2': ('P2', None), 'F2P2': ('P2', 'P2'), 'ODO': ('P2', 'P2'), 'F1L2': ('P2', 'L2'), 'F1P3': ('P3', None), 'F1P3s': ('P3', None),
      'F2P3': ('P3', 'P3'), 'F2P3s': ('P3', 'P3'), 'F1L3': ('P3', 'L3'), 'F1PL': ('P3', 'PL'), 'PT2PL': ('P3', None)}
def node_value(k, v):
    if k == 'P2':
        if 'derived' in v: return np.array([comp(c) for c in v['derived']])
        return val_p2(v)
    if k == 'L2':
        if 'derived' in v: return np.array([comp(c) for c in v['derived']])
        return np.array([v['x'], v['y']], float)
    if k == 'P3': return tmat(v)
    if k == 'L3': return np.array(v['p'], float) / v['w']
    if k == 'PL': return np.r_[np.array(v['n'], float), v['d'] / v['e']]     # not normalised: the node does it
def obs_value(k, o):
    if k in ('F1P2', 'F2P2'): return np.array([term(o['x']), term(o['y']), math.atan2(o['g'][1], o['g'][0]) + 2*math.pi*o['k']])
    if k == 'ODO': return np.array([math.atan2(o['g1'][1], o['g1'][0]), o['d'], math.atan2(o['g2'][1], o['g2'][0]) + 2*math.pi*o['k']])
    if k == 'F1L2': return np.array([term(o['r']), math.atan2(o['g'][1], o['g'][0]) + 2*math.pi*o['k']])
    if k[:4] in ('F1P3', 'F2P3'): return tmat(o)
    if k == 'F1L3': return np.array(o['p'], float) / o['w']
    if k == 'F1PL': return np.r_[np.array(o['n'], float), o['d'] / o['e']]
    if k == 'PT2PL': return np.c_[np.array(o['x'], float), np.array(o['y'], float), np.array(o['n'], float) / o['m']]
DIM = {'F1P2': 3, 'F2P2': 3, 'ODO': 3, 'F1L2': 2, 'F1L3': 3, 'F1PL': 4, 'PT2PL': 1}
def col(x):
    x = np.asarray(x, float)
    return x.reshape(-1, 1) if x.ndim == 1 else x

class Driver(Base):
    def info(self, n, d):
        """integer symmetric positive definite matrix number n of dimension d"""
        r = np.random.RandomState(100 * n + d)
        M = r.randint(-3, 4, (d, d)).astype(float)
        return M @ M.T + np.diag(r.randint(1, 5, d))

    def aged(self, r, w, k, v):
        past = r['past']; bit = 1 if w == 'a' else 2
        if not past['moved'] & bit: return self.mx.node(k, col(v), 1 if past['mode'] & bit else 0)
        n = self.mx.node(k, col(node_value(k, past[w])), 1 if past['mode'] & bit else 0)
        n.set_state(col(v))
        return n

    def run(self, hist):
        mx = self.mx
        f = None; W = None; 
        for n, r in enumerate(hist):
            op = r['op']
            if op == 'add':
                kind = r['kind']; ka, kb = NK[kind]
                A = node_value(ka, r['a']); B = node_value(kb, r['b']) if kb else None
                obs = obs_value(kind, r['obs'])
                robust = 0
                na = self.aged(r, 'a', ka, A); nb = self.aged(r, 'b', kb, B) if kb else None
                other = self.aged(r, 'a', ka, A)      # a bystander
                order = [na, nb] if not r['rev'] else [nb, na]
                if kb is None: order = [na]
                g = mx.GraphX()
                g.add_node(other)
                for x in order: g.add_node(x)
                for bit, x, k in ((1, na, ka), (2, nb, kb)):
                    if x is not None and r['past']['busy'] & bit and k in ('P2', 'P3'):
                        D = 3 if k == 'P2' else 6
                        g.add_factor(mx.factor('F1' + k, np.zeros((3, 1)) if k == 'P2' else np.eye(4), x, x, np.eye(D), False, 0))
                d = DIM.get(kind, 6)
                W = self.info(r['W'], d)
                before = [x.state().copy() for x in order] + [other.state().copy()]
                auxb = [x.aux().copy() for x in order]
                f = mx.factor(kind, col(obs), na, nb if nb is not None else na, W, r['init'], robust)
                g.add_factor(f)
                self.fobs = obs
                tolA = 1e-9 * (1 + np.abs(A).max())
                # P18: nothing but the target moves, and only on request
                self.check_state(ka, 'initA', na, r['na'], 0, exact=before[order.index(na)])
                self.close('initAux', na.aux(), auxb[order.index(na)], 0, 'auxiliary state changed by adding a factor')
                self.close('bystander', other.state(), before[-1], 0, 'a node not attached to the factor moved')
                if nb is not None:
                    if r['init']: self.check_state(kb, 'init-target', nb, r['nb'], 1e-9)
                    else: self.close('noinit', nb.state(), before[order.index(nb)], 0, '%s moved its target although initialisation was not requested' % kind)
                    self.close('initAux', nb.aux(), auxb[order.index(nb)], 0, 'auxiliary state changed by adding a factor')
                self.close('info', f.info(), W, 0, 'information matrix')
                self.true('order', [x.id() for x in f.nodes()] == [x.id() for x in order], 'neighbour nodes not in id order')
                self.kind, self.rev, self.na, self.nb, self.f, self.order = kind, r['rev'], na, nb, f, order
                self.va, self.vb = r['na'], r['nb']
                self.pyapi(r, A, B, W)
                self.offlattice(r, A, B, obs, W, n)
                if not self.bad: self.initoff(r, A, B, obs, W)
                if self.bad: return
                continue
            if op == 'setA': self.na.set_state(col(node_value(NK[kind][0], r['na'])))
            elif op == 'setB': self.nb.set_state(col(node_value(NK[kind][1], r['nb'])))
            elif op == 'moveA':
                e = r['g']; q, t = e['q'], e['t']; v = q[1:]; vt = np.cross(v, t).tolist()
                x = lnsym({'a': q[0], 'v': v, 't': t, 'vt': vt, 'vvt': np.cross(v, vt).tolist(), 'w': e['w']})
                self.na.update(x)
            elif op == 'eval':
                f.evaluate_residuals(); f.evaluate_jacobians(); f.evaluate_chi2()
                self.reference(r, self.va, self.vb)
            elif op == 'res':
                f.evaluate_residuals(); f.evaluate_chi2()
            if 'na' in r:
                self.va, self.vb = r['na'], r['nb']
                self.check_state(NK[kind][0], 'state', self.na, r['na'], 1e-7)
                if self.nb is not None: self.check_state(NK[kind][1], 'state', self.nb, r['nb'], 1e-7)
            if self.bad: return       # a state is wrong: the rest would be a consequence
            self.check_residual(r['res'], W)
            self.check_jac(r['jac'])

    def offlattice(self, r, A, B, obs, W, n):
        """the same definitions away from the lattice: other scales, and states moved by tiny to large tangent steps.
        The oracle is fgref, the numeric form of the specification (checked against it in reference())."""
        mx, kind = self.mx, r['kind']; ka, kb = NK[kind]
        rng = np.random.RandomState((zlib.crc32(json.dumps(r, sort_keys=True).encode()) + self.seed) % 2**31)
        sc = rng.choice([1, 1, 1/64., 1/128., 1/512., 300.])
        def scale(k, x):
            x = np.array(x, float)
            if k == 'P2': x[:2] *= sc
            elif k in ('L2', 'L3'): x *= sc
            elif k == 'P3': x[:3, 3] *= sc
            elif k == 'PL': x[3] *= sc
            return x
        o = np.array(obs, float)
        if kind in ('F1P2', 'F2P2'): o[:2] *= sc
        elif kind == 'ODO': o[1] *= sc
        elif kind == 'F1L2': o[0] *= sc
        elif kind[:4] in ('F1P3', 'F2P3'): o[:3, 3] *= sc
        elif kind == 'F1L3': o *= sc
        elif kind == 'F1PL': o[3] *= sc
        elif kind == 'PT2PL': o[:, :2] *= sc
        if kind[:4] == 'F1P3' and rng.rand() < 0.5: o = fgref.boxplus('P3', scale(ka, A), np.zeros(6))        # near agreement
        if kind == 'F1P2' and rng.rand() < 0.5: o = np.array(scale(ka, A), float).ravel()
        na = mx.node(ka, col(scale(ka, A)), 0); nb = mx.node(kb, col(scale(kb, B)), 0) if kb else None
        (na if not r['rev'] or nb is None else nb).set_id(0)
        if nb is not None: (nb if not r['rev'] else na).set_id(1)
        f = mx.factor(kind, col(o), na, nb if nb is not None else na, W, False, 0)
        if r['init'] or rng.rand() < 0.5 and kind in ('F2P2', 'ODO', 'F1L2', 'F2P3', 'F2P3s', 'F1L3'):
            nb.set_state(col(fgref.initial(kind, o, na.state())))     # near agreement
        for k in range(2):
            for nd, kk in ((na, ka), (nb, kb)):
                if nd is None: continue
                d = np.array([rng.choice([-1, 1]) * rng.choice([0, 1e-9, 1e-8, 1e-6, 1e-4, 1e-2, 0.3]) for _ in range(fgref.DIM[kk])]) * rng.choice([0, 1, 1, 1e-6, 1e-3])
                nd.set_state(col(fgref.boxplus(kk, nd.state(), d)))
            S = {x.id(): x.state() for x in (na, nb) if x is not None}
            e, J = fgref.evaluate(kind, o, na.id(), nb.id() if nb is not None else None, S)
            f.evaluate_residuals(); f.evaluate_jacobians(); f.evaluate_chi2()
            got = f.residual()[:, 0]
            if kind == 'F1PL' and abs((S[na.id()].T @ S[nb.id()][:, 0])[3]) < 1e-9: continue
            if kind == 'F1L2':
                dd = S[nb.id()][:, 0] - S[na.id()][:2, 0]
                if 0.5e-6 < dd @ dd < 2e-6: continue
            big = 1 + max([np.abs(x).max() for x in S.values()] + [np.abs(o).max()])
            if kind[:4] in ('F1P3', 'F2P3'):
                ang = np.linalg.norm(e[:3])
                if ang > math.pi - 1e-3: continue
                tol = (1e-12 if ang < 0.5 else 1e-10 if ang < 2.5 else 1e-8) * big
            else:
                tol = 1e-10 * big
                i = {'F1P2': 2, 'F2P2': 2, 'ODO': 2, 'F1L2': 1}.get(kind)
                if i is not None and abs(abs(e[i]) - math.pi) < 1e-6: e[i] = got[i] if abs(abs(got[i]) - math.pi) < 1e-5 else e[i]
                if kind == 'F1L2': tol += 1e-13 * big / math.sqrt(max(dd @ dd, 1e-12))
            self.close('residual', got, e, tol, '%s residual at scale %g, states %s, observation %s' % (kind, sc, [x.ravel().tolist() for x in S.values()], o.ravel().tolist()))
            self.close('jacobian', f.jacobian(), J, 1e-8 * (1 + np.abs(J).max()), '%s Jacobian at scale %g, states %s, observation %s' % (kind, sc, [x.ravel().tolist() for x in S.values()], o.ravel().tolist()))
            c = 0.5 * got @ W @ got
            self.close('chi2', f.chi2(), c, 1e-10 * (1 + c), 'error')

    def initoff(self, r, A, B, obs, W):
        """initialisation far from the lattice: tiny and huge observations, poses moved off their lattice states"""
        mx, kind = self.mx, r['kind']; ka, kb = NK[kind]
        if kind not in ('F2P2', 'ODO', 'F1L2', 'F2P3', 'F2P3s', 'F1L3'): return
        rng = np.random.RandomState((zlib.crc32(json.dumps(r, sort_keys=True).encode()) + self.seed + 5) % 2**31)
        sc = 10.0 ** rng.uniform(-9, 6); o = np.array(obs, float)
        if kind == 'F2P2': o[:2] *= sc
        elif kind == 'ODO': o[1] *= sc
        elif kind == 'F1L2': o[0] *= sc
        elif kind[:4] == 'F2P3': o[:3, 3] *= sc
        else: o *= sc
        na = mx.node(ka, col(fgref.boxplus(ka, col(A), rng.randn(fgref.DIM[ka]))), 0); nb = mx.node(kb, col(B), 0)
        for i, x in enumerate((nb, na) if r['rev'] else (na, nb)): x.set_id(i)
        a0, b0 = na.state().copy(), nb.aux().copy()
        mx.factor(kind, col(o), na, nb, W, True, 0)
        exp = np.asarray(fgref.initial(kind, o, na.state()), float).reshape(nb.state().shape); got = nb.state().copy()
        if kb == 'P2':
            self.true('init-target', -math.pi <= got[2, 0] < math.pi, '%s: initialised heading %r' % (kind, got[2, 0])); d = wrap(got[2, 0] - exp[2, 0]); got[2, 0] = exp[2, 0] + d
        self.close('init-target', got, exp, 1e-12 * (1 + np.abs(o).max() + np.abs(a0).max()), '%s initialisation, pose %s, observation %s' % (kind, a0.ravel().tolist(), o.ravel().tolist()))
        self.close('initA', na.state(), a0, 0, 'the origin changed'); self.close('initAux', nb.aux(), b0, 0, 'auxiliary state changed by adding a factor')

    def pyapi(self, r, A, B, W):
        """the same creation through the Python binding of the graph"""
        mx, kind = self.mx, r['kind']
        if kind == 'ODO' and not r['init']: return
        ka, kb = NK[kind]
        g = mx.FGraph()
        se = lambda T: mx.geometry.SE3(T)
        def addn(k, v):
            v = np.asarray(v, float)
            if k == 'P2': return g.add_node_pose_2d(v)
            if k == 'L2': return g.add_node_landmark_2d(v)
            if k == 'P3': return g.add_node_pose_3d(se(v))
            if k == 'L3': return g.add_node_landmark_3d(v)
            if k == 'PL': return g.add_node_plane_4d(v)
        addn(ka, A)
        if kb is None: ia = addn(ka, A); ib = None
        elif r['rev']: ib = addn(kb, B); ia = addn(ka, A)
        else: ia = addn(ka, A); ib = addn(kb, B)
        before = [x.copy() for x in g.get_estimated_state()]
        o = self.fobs; ini = (r['init'],) if r['init'] else ()
        if kind == 'F1P2': g.add_factor_1pose_2d(o, ia, W)
        elif kind == 'F2P2': g.add_factor_2poses_2d(o, ia, ib, W, *ini)
        elif kind == 'ODO': g.add_factor_2poses_2d_odom(o, ia, ib, W)
        elif kind == 'F1L2': g.add_factor_1pose_1landmark_2d(o, ia, ib, W, *ini)
        elif kind[:4] == 'F1P3': g.add_factor_1pose_3d(se(o), ia, W)
        elif kind[:4] == 'F2P3': g.add_factor_2poses_3d(se(o), ia, ib, W, *ini)
        elif kind == 'F1L3': g.add_factor_1pose_1landmark_3d(o, ia, ib, W, *ini)
        elif kind == 'F1PL': g.add_factor_1pose_1plane_4d(o, ia, ib, W)
        elif kind == 'PT2PL': g.add_factor_1pose_point2plane(o[:, 0], o[:, 1], o[:, 2], ia, W)
        after = g.get_estimated_state()
        for i, (x, y) in enumerate(zip(before, after)):
            if i == ib and r['init']:
                class H:
                    def state(s): return col(y)
                self.check_state(kb, 'init-target', H(), r['nb'], 1e-9)
            else:
                self.close('noinit', y, x, 0, 'node %d moved when %s was added (Python API)' % (i, kind))
        if self.bad: return
        # error through the Python API: half the weighted square of the residual of the same factor
        self.f.evaluate_residuals()
        rr = self.f.residual()[:, 0]; c = 0.5 * rr @ W @ rr
        if 'residual' in (self.opts.get('keys') or ['residual']):
            amb = abs(c) > 0 and kind[:4] in ('F1P3', 'F2P3') and np.linalg.norm(rr[:3]) > math.pi - 1e-4
            if not amb: self.close('residual', g.chi2(), c, 1e-7 * (1 + abs(c)), '%s error through the Python API' % kind)

    def check_state(self, k, key, node, v, tol, exact=None):
        e = node_value(k, v)
        if exact is not None:
            return self.close(key, node.state(), exact, 0, 'the first node moved')
        s = node.state()
        if k == 'P2':
            got = s[:, 0]; d = got - e; d[2] = wrap(d[2])
            self.close(key, d, np.zeros(3), tol * (1 + np.abs(e[:2]).max()), 'pose %s instead of %s' % (got, e))
            if key in ('init-target', 'state') : self.true(key, -math.pi <= got[2] < math.pi, 'heading %r outside [-pi, pi)' % got[2])
        elif k == 'PL':
            e = np.r_[e[:3] / np.linalg.norm(e[:3]), e[3]]
            self.close(key, s[:, 0], e, tol * (1 + abs(e[3])), 'plane')
        else:
            self.close(key, s, col(e), tol * (1 + np.abs(e).max()), '%s state' % k)

    def check_residual(self, r, W):
        f, kind = self.f, self.kind
        if 'none' in r: return
        got = f.residual()[:, 0]
        if 'z' in r: e = np.zeros(DIM.get(kind, 6)); tol = 1e-9 * (1 + np.abs(self.fobs).max())
        elif 'c' in r: e = np.array([comp(c) for c in r['c']]); tol = 1e-9 * (1 + np.abs(self.fobs).max() + np.abs(e).max())
        elif 'q' in r: e = np.array([x[0] / x[1] for x in r['q']]); tol = 1e-9 * (1 + np.abs(self.fobs).max() + np.abs(e).max())
        else:
            L = r['ln']; e = lnsym(L); tol = 1e-8 * (1 + np.abs(e).max())
            if L['a'] == 0:
                e2 = lnsym(L, -1)
                tol = 1e-6 * (1 + np.abs(e).max())
                if np.abs(got - e2).max() < np.abs(got - e).max(): e = e2
            if L['a'] and L['a'] ** 2 * 400 < sum(x*x for x in L['v']): tol *= 100
        if 'q' in r or 'ln' in r:
            self.close('residual', got, e, tol, '%s residual' % kind)
        else:
            d = got - e
            i = {'F1P2': 2, 'F2P2': 2, 'ODO': 2, 'F1L2': 1}[kind]
            d[i] = wrap(d[i])
            self.close('residual', d, np.zeros(len(d)), tol, '%s residual %s instead of %s' % (kind, got, e))
            self.true('residual', abs(got[i]) <= math.pi + 1e-12, 'angle residual %r is not wrapped' % got[i])
        g = f.residual()[:, 0]
        c = 0.5 * g @ W @ g
        self.close('chi2', f.chi2(), c, 1e-10 * (1 + abs(c)), '%s error' % kind)

    def expected_jac(self, j):
        kind = self.kind
        if 's' in j:
            O = np.array([[term(t) for t in row] for row in j['s']['o']])
            T = np.array([[term(t) for t in row] for row in j['s']['t']]) if j['s']['t'] else None
        else:
            O = np.array([[x[0] / x[1] for x in row] for row in j['q']['o']])
            T = np.array([[x[0] / x[1] for x in row] for row in j['q']['t']]) if j['q']['t'] else None
        if T is None: return O
        if self.rev and kind[:4] != 'F2P3': return np.c_[T, O]
        return np.c_[O, T]

    def check_jac(self, j):
        if 'none' in j: return
        e = self.expected_jac(j)
        self.close('jacobian', self.f.jacobian(), e, 1e-8 * (1 + np.abs(e).max()), '%s Jacobian' % self.kind)

    def reference(self, r, va, vb):
        """the numeric reference used for whole graphs is validated against the exact specification (not against the code)"""
        ka, kb = NK[self.kind]
        def st(k, v):
            x = node_value(k, v)
            if k == 'PL': x = np.r_[x[:3] / np.linalg.norm(x[:3]), x[3]]
            return col(x)
        ia, ib = (2, 1) if self.rev else (1, 2)
        S = {ia: st(ka, va)}
        if kb: S[ib] = st(kb, vb)
        rr, J = fgref.evaluate(self.kind, self.fobs, ia, ib if kb else None, S)
        if 'c' in r['res']:
            e = np.array([comp(c) for c in r['res']['c']]); d = rr - e
            i = {'F1P2': 2, 'F2P2': 2, 'ODO': 2, 'F1L2': 1}[self.kind]; d[i] = wrap(d[i])
        elif 'q' in r['res']: d = rr - np.array([x[0] / x[1] for x in r['res']['q']])
        elif 'ln' in r['res']: d = (rr - lnsym(r['res']['ln'])) if r['res']['ln']['a'] else 0 * rr
        else: d = rr
        assert np.abs(d).max() < 1e-6 * (1 + np.abs(rr).max()), ('reference residual', self.kind, rr, d)
        if 'none' not in r['jac']:
            e = self.expected_jac(r['jac'])
            assert np.abs(e - J).max() < 1e-9 * (1 + np.abs(e).max()), ('reference jacobian', self.kind, J, e)
