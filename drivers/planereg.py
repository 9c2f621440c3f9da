"""Replays PlaneReg behaviours on mrob PlaneRegistration."""
import numpy as np
from drv import *
from registration import horn
def P3(x): return np.array(x['p'], float) / x['w']
class Driver(Base):
    def setup(self):
        self.g, self.r = self.mx.geometry, self.mx.registration
    def read(self): return [np.asarray(self.reg.get_trajectory(t).T()).copy() for t in range(self.n)]
    def error(self, tr):
        """sum over the planes of the smallest eigenvalue of the scatter; also a scale"""
        e, s = 0.0, 1.0
        for p in self.pts.values():
            Q = np.zeros((4, 4))
            for t, xs in enumerate(p):
                if xs:
                    c = np.array([np.r_[x, 1] for x in xs]) @ tr[t].T
                    Q += c.T @ c
            s += np.trace(Q); e += np.linalg.eigvalsh(Q)[0]
        return e, s
    def interp(self, last, k): return exp_se3(k * ln_se3(last))
    def run(self, hist):
        self.reg, self.n, self.pts, self.err0, self.twin = None, 0, {}, None, None
        self.mode = None
        for k, h in enumerate(hist):
            op = h['op']; what = 'step %d %s' % (k, op)
            prev = self.read() if self.reg is not None else None
            if op == 'renew':
                if self.reg is None: self.reg = self.r.PlaneRegistration(); self.twin = None
                else: self.twin = self.r.PlaneRegistration(); self.twin.set_number_planes_and_poses(h['np'], h['n'])        # as good as new
                self.n = h['n']; self.pts = {}; self.np = h['np']
                self.reg.set_number_planes_and_poses(h['np'], h['n']); prev = None
            elif op == 'add':
                for g in self.both(): g.add_plane(h['p'])
                self.pts[h['p']] = [[] for _ in range(self.n)]
            elif op == 'addfull':
                self.pts[h['p']] = [[P3(x) for x in xs] for xs in h['pts']]
                for g in self.both(): self.mx.reg_add_full_plane(g, h['p'], self.pts[h['p']])
                self.pts[h['p']] = [list(xs) for xs in self.pts[h['p']]]
            elif op == 'see':
                for x in h['pts']:
                    for g in self.both(): g.plane_push_back_point(h['p'], h['t'] - 1, P3(x))
                    self.pts[h['p']][h['t'] - 1].append(P3(x))
            elif op == 'last':
                for g in self.both(): g.initialize_last_pose_solution(self.g.SE3(tmat(h['g'])))
            elif op == 'reset':
                self.reg.reset_solution()
                # a registration that was reset is like one that was never solved
                self.twin = self.r.PlaneRegistration(); self.twin.set_number_planes_and_poses(self.np, self.n)
                for p, v in self.pts.items(): self.mx.reg_add_full_plane(self.twin, p, v)
            elif op == 'init':
                self.err0 = self.error(prev); self.mode = 'INITIALIZE'
                self.init(h, prev, what); 
            elif op == 'solve': self.solve(h, prev, what)
            elif op == 'look': self.look(h, what)
            elif op == 'evaluate': self.evaluate(what)
            if self.bad: return
            self.poses(h, prev, what)
            if self.twin is not None and op in ('solve', 'init', 'last'): self.fresh(what)
            if op in ('look', 'evaluate', 'see', 'add', 'addfull') and prev is not None:
                self.true('trajectory', all(np.array_equal(a, b) for a, b in zip(prev, self.read())), what + ': the trajectory changed')
            e, s = self.error(self.read())
            self.close('error', self.reg.get_error(), e, 1e-10 * s, what + ': error')
            if self.bad: return
    def both(self): return [self.reg] if self.twin is None else [self.reg, self.twin]
    def fresh(self, what):
        for t, x in enumerate(self.read()):
            y = np.asarray(self.twin.get_trajectory(t).T())
            if np.isfinite(y).all(): self.close('fresh', x, y, 1e-7 * (1 + np.abs(y).max()), what + ': pose %d after a reset differs from that of a fresh registration' % t)
    def poses(self, h, prev, what):
        key = 'init' if h['op'] == 'init' else 'trajectory'
        tr = self.read()
        self.true('first', np.abs(tr[0] - np.eye(4)).max() < 1e-15, what + ': first pose is %s' % tr[0])
        self.close(key, np.asarray(self.reg.get_last_pose().T()), tr[-1], 0, what + ': last pose')
        self.true(key, self.reg.get_number_poses() == self.n, what + ': number of poses')
        for t, x in enumerate(h['traj']):
            w = '%s: pose %d' % (what, t)
            if x['kind'] == 'pose':
                E = tmat(x['g']); self.close(key, tr[t], E, 1e-10 * (1 + np.abs(E).max()), w)
            elif x['kind'] == 'interp':
                if x['num'] == x['den']: E = tmat(x['g'])
                else:
                    l = lnsym(x['ln']) if x['ln']['a'] >= 0 else None
                    E = exp_se3(x['num'] / x['den'] * l)
                self.close(key, tr[t], E, 1e-9 * (1 + np.abs(E).max()), w)
    def means(self, t):
        ids = [p for p in sorted(self.pts) if self.pts[p][0] and self.pts[p][t]]
        return np.array([np.mean(self.pts[p][t], 0) for p in ids]), np.array([np.mean(self.pts[p][0], 0) for p in ids])
    def init(self, h, prev, what):
        ok = self.reg.solve(self.r.INITIALIZE)
        if self.twin is not None: self.twin.solve(self.r.INITIALIZE)
        tr = self.read()
        undecided = False
        for t in range(1, self.n):
            o = h['outcome'][t]
            if o == 'data' and not undecided:
                X, Y = self.means(t)
                s = np.linalg.svd((X - X.mean(0)).T @ (Y - Y.mean(0)), compute_uv=False)
                R, tt, gap = horn(X, Y, np.ones(len(X)))
                if s[1] > 1e-6 * s[0] and gap > 1e-4:
                    E = np.eye(4); E[:3, :3], E[:3, 3] = R, tt
                    self.close('init', tr[t], E, 1e-9 / gap * (1 + np.abs(E).max()), what + ': pose %d from the means' % t)
                else: self.bad = True; return        # too close to degenerate to be decided: end of this behaviour
            elif o == 'fail':
                self.true('init', ok == 0, what + ': success reported although pose %d has no solution' % t)
                for u in range(t, self.n):
                    self.true('init', np.array_equal(tr[u], prev[u]), what + ': pose %d changed although pose %d has no solution' % (u, t))
                return
        self.true('init', ok == 1, what + ': returned %s on a solvable problem' % ok)
    def solve(self, h, prev, what):
        m = h['m']; what += ' ' + m
        e0, s0 = self.error(prev)
        self.err0, self.mode = (e0, s0), m
        self.reg.solve(getattr(self.r, m), h['one'])
        if self.twin is not None: self.twin.solve(getattr(self.r, m), h['one'])
        tr = self.read()
        if not np.all(np.isfinite(tr[-1])):
            if m in ('LM_SPHER', 'LM_ELLIP'): self.true('damped', False, what + ': the trajectory is not finite')
            self.bad = True; return
        e1, s1 = self.error(tr)
        damped = m.startswith('LM')
        if damped: self.true('damped', e1 <= e0 + 1e-9 * (s0 + s1), what + ': error went from %g to %g' % (e0, e1))
        kept = damped and all(np.array_equal(a, b) for a, b in zip(prev, tr))
        # the damped optimiser restores copies, a step of zero length is a step
        if m != 'GRADIENT_ALL_POSES' and not kept:
            T = tr[-1]; a = np.linalg.norm(ln_so3(T[:3, :3]))
            if a < math.pi - 1e-4:
                for t in range(1, self.n - 1):
                    E = self.interp(T, t / (self.n - 1))
                    self.close('interpolation', tr[t], E, 1e-8 * (1 + np.abs(T).max()) / (math.pi - a), what + ': pose %d of %d' % (t, self.n))
        for t in range(1, self.n):
            self.close('trajectory', tr[t][:3, :3] @ tr[t][:3, :3].T, np.eye(3), 1e-8, what + ': pose %d is a rotation' % t)
    def look(self, h, what):
        tr = self.read()
        for t in range(self.n):
            got = sorted(tuple(np.asarray(x).ravel()) for x in self.reg.get_point_cloud(t))
            exp = sorted(tuple(x) for p in self.pts.values() for x in p[t])
            self.true('points', len(got) == len(exp) and np.array_equal(np.array(got), np.array(exp)), what + ': points at time %d' % t)
        self.true('points', self.mx.reg_points(self.reg) == sum(len(xs) for p in self.pts.values() for xs in p), what + ': number of points')
        self.true('points', sorted(self.mx.reg_ids(self.reg)) == sorted(self.pts), what + ': planes')
        gt = [tmat(x) for x in h['gt']]
        lns = [ln_se3(a @ inv_se3(b)) for a, b in zip(tr, gt)]
        if all(np.linalg.norm(l[:3]) < math.pi - 1e-6 for l in lns):
            self.close('rmse', self.mx.reg_rmse(self.reg, [self.g.SE3(x) for x in gt]), math.sqrt(sum(l @ l for l in lns) / self.n), 1e-7 * (1 + max(np.abs(l).max() for l in lns)), what + ': rmse')
        self.reg.get_error()
        for p, v in self.pts.items():
            Q = np.zeros((4, 4))
            for t, xs in enumerate(v):
                if xs: c = np.array([np.r_[x, 1] for x in xs]) @ tr[t].T; Q += c.T @ c
            self.close('error', self.mx.reg_plane_error(self.reg, p), np.linalg.eigvalsh(Q)[0], 1e-10 * (1 + np.trace(Q)), what + ': error of plane %d' % p)
    def evaluate(self, what):
        if not self.pts: return
        v = list(self.reg.print_evaluate())
        if not self.true('evaluate', len(v) == 13, what + ': %d values' % len(v)): return
        self.true('evaluate', v[0] == self.np and v[1] == self.n and v[2] == sum(len(xs) for p in self.pts.values() for xs in p), what + ': sizes %s' % v[:3])
        e, s = self.error(self.read())
        self.close('evaluate', v[6], e, 1e-10 * s, what + ': error')
        if self.err0: self.close('evaluate', v[5], self.err0[0], 1e-10 * self.err0[1], what + ': initial error of the last solve')
        self.true('evaluate', v[4] >= 0, what + ': time')
        if self.mode in ('LM_SPHER', 'LM_ELLIP', 'GN_HESSIAN'):
            self.true('evaluate', 1 <= v[3] <= 100 and all(np.isfinite(v[7:])) and v[7:] == sorted(v[7:]), what + ': iterations or eigenvalues')
