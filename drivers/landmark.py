"""Replays PlaneLandmark behaviours on mrob::Plane."""
import numpy as np, random
from drv import *
G = [np.zeros((4, 4)) for _ in range(6)]
for i in range(3):
    e = np.zeros(3); e[i] = 1
    G[i][:3, :3] = hat(e); G[3 + i][i, 3] = 1
def homog(cloud, k):
    return [np.array([np.r_[k * np.array(p['p'], float) / p['w'], 1] for p in c]).reshape(-1, 4) for c in cloud]
class Driver(Base):
    def setup(self):
        self.g = self.mx.geometry; self.rng = random.Random(self.seed)
    def scatter(self, cloud):
        Q = np.zeros((4, 4))
        for c in homog(cloud, self.k): Q += c.T @ c
        return Q * self.m
    def lam(self, key, got, Q, what):
        return self.close(key, got, np.linalg.eigvalsh(Q)[0], 1e-10 * (1 + np.trace(Q)), what)
    def plane(self, P, Q, what):
        v = np.asarray(P.plane()).ravel()
        s = 1 + np.trace(Q); w = np.linalg.eigvalsh(Q)
        self.close('plane', v @ v, 1, 1e-9, what + ': norm of the plane')
        self.close('plane', Q @ v, w[0] * v, 1e-9 * s, what + ': plane is the eigenvector')
    def run(self, hist):
        nt = self.opts['nt']
        P = self.mx.PlaneX(nt)
        m = self.m = 150 if self.rng.random() < 0.02 else 1      # every point given m times
        k = self.k = self.rng.choice([1.0, 1.0, 1.0, 2.0 ** -10, 2.0 ** -13, 2.0 ** 8])                # units: lengths are multiplied by k
        for n, r in enumerate(hist):
            op, t = r['op'], r.get('t', 1) - 1
            what = 'step %d %s' % (n, op)
            if op == 'push':
                for _ in range(m): P.push(k * np.array(r['p'], float), t)
            elif op == 'pose':
                T = tmat(r['g']); T[:3, 3] *= k; P.set_pose(t, self.g.SE3(T))
            elif op == 'swap': P.new_trajectory(); P.reserve(20, 0)
            elif op == 'moments': P.moments(r['b'])
            elif op == 'clear': P.clear()
            elif op == 'reset': P.reset()
            elif op == 'mean': self.close('mean', P.mean(t), k * np.array(r['s'], float) / r['n'], 1e-12 * k * (1 + np.abs(r['s']).max()), what)
            elif op == 'estimate':
                Q = self.scatter(r['cloud']); e = P.estimate()
                self.lam('error', e, Q, what); self.close('error', P.error(), e, 0, what + ': get_error'); self.plane(P, Q, what)
            elif op == 'inc':
                Q = self.scatter(r['cloud']); e = P.estimate_inc(t)
                self.lam('incremental', e, Q, what); self.close('incremental', P.error(), e, 0, what + ': get_error'); self.plane(P, Q, what)
            elif op == 'incerr':
                Q = self.scatter(r['cloud']); before = np.asarray(P.plane()).copy(), P.error()
                self.lam('incremental', P.error_inc(t), Q, what)
                self.true('pure', np.array_equal(before[0], P.plane()) and before[1] == P.error(), what + ' changed the estimate')
            elif op == 'error': self.lam('error', P.error(), self.scatter(r['cloud']), what); self.plane(P, self.scatter(r['cloud']), what)
            elif op == 'deriv': self.deriv(P, r, t, what)
            self.counts(P, hist[:n + 1], what)
            if self.bad: return
    def counts(self, P, hist, what):
        nt = self.opts['nt']
        exp = [[] for _ in range(nt)]
        for r in hist:
            if r['op'] == 'push' and r['t'] <= nt: exp[r['t'] - 1].append(r['p'])
            elif r['op'] == 'clear': exp = [[] for _ in range(nt)]
        if hist[-1]['op'] == 'look':
            exp = [[x for x in e for _ in range(self.m)] for e in hist[-1]['pts']]
            self.true('counts', P.total() == self.m * hist[-1]['total'], what + ': total %d instead of %d' % (P.total(), hist[-1]['total']))
            for t in range(nt):
                self.true('counts', P.number(t) == len(exp[t]), what + ': %d points at time %d instead of %d' % (P.number(t), t, len(exp[t])))
                got = np.array([np.asarray(x).ravel() for x in P.points(t)]).reshape(-1, 3)
                self.true('counts', np.array_equal(got, self.k * np.array(exp[t], float).reshape(-1, 3)), what + ': points at time %d' % t)
        else:
            self.true('counts', P.total() == self.m * sum(map(len, exp)), what + ': total')
    def deriv(self, P, r, t, what):
        C = homog(r['cloud'], self.k); Q = self.scatter(r['cloud'])
        w, V = np.linalg.eigh(Q); s = 1 + np.trace(Q)
        J = np.asarray(P.gradient(t)).ravel(); H = np.asarray(P.hessian(t))
        if not self.true('gradient', J.shape == (6,) and H.shape == (6, 6), what): return
        v = np.asarray(P.plane()).ravel()
        c = np.repeat(C[t], self.m, 0)
        z = c @ v                                # distances of the points of this time
        D = np.array([c @ G[i].T @ v for i in range(6)])
        m = 1e-10 * s * (1 + np.abs(c).max() if len(c) else 1)
        # the Hessian at the plane parameters the landmark reports
        Hx = 2 * D @ D.T
        for i in range(6):
            for j in range(6): Hx[i, j] += z @ (c @ (G[i] @ G[j] + G[j] @ G[i]).T @ v)
        self.close('hessian', np.triu(H), np.triu(Hx), m, what + ': Hessian')
        if w[1] - w[0] < 1e-6 * s: return
        u = V[:, 0]
        Jx = np.array([2 * (c @ u) @ (c @ G[i].T @ u) for i in range(6)])
        self.close('gradient', J, Jx, m * (1 + 1e-4 * s / (w[1] - w[0])), what + ': gradient')
        # the closed forms above against differences of the error itself
        if len(c) and (w[1] - w[0]) > 1e-3 * s:
            rest = Q - c.T @ c
            def lam(x):
                y = c @ exp_se3(x).T
                return np.linalg.eigvalsh(rest + y.T @ y)[0]
            h = 1e-5
            for i in range(6):
                x = np.zeros(6); x[i] = h
                self.close('gradient', J[i], (lam(x) - lam(-x)) / (2 * h), 1e-5 * s, what + ': gradient against differences')
