"""Replays Registration behaviours on arun, weighted and gicp (C++ interface and Python wrappers)."""
import numpy as np, random
from drv import *

def horn(X, Y, w):
    """optimal proper rotation and translation of sum w |y - R x - t|^2; also the gap of its optimality"""
    w = np.asarray(w, float); w = w / w.sum()
    cx, cy = w @ X, w @ Y
    H = (X - cx).T @ ((Y - cy) * w[:, None])
    n = np.linalg.norm(H)
    if n == 0: return np.eye(3), cy - cx, 0.0
    H = H / n
    z = np.array([H[1, 2] - H[2, 1], H[2, 0] - H[0, 2], H[0, 1] - H[1, 0]])
    K = np.zeros((4, 4)); K[0, 0] = np.trace(H); K[0, 1:] = K[1:, 0] = z
    K[1:, 1:] = H + H.T - np.trace(H) * np.eye(3)
    e, V = np.linalg.eigh(K)
    R = rotq(V[:, -1])
    return R, cy - R @ cx, e[-1] - e[-2]

def cost(X, Y, w, R, t):
    r = Y - X @ R.T - t
    return float(np.sum(w * np.sum(r * r, 1)))

class Driver(Base):
    COVS = [np.eye(3), np.diag([1., 2, 4]), np.array([[2., 1, 0], [1, 2, 0], [0, 0, 1]]), np.array([[3., -1, 1], [-1, 2, 0], [1, 0, 5]]), np.diag([.01, 1, 1])]
    def setup(self):
        self.g, self.r = self.mx.geometry, self.mx.registration
        self.rng = random.Random(self.seed)
    def run(self, hist):
        for n, h in enumerate(hist):
            X = np.array([r['x'] for r in h['rows']], float)
            Y = np.array([np.array(r['y'], float) / r['yw'] for r in h['rows']])
            W = np.array([r['w'] for r in h['rows']], float)
            k = 10.0 ** h['scale']
            E = tmat(h['T'])
            T0 = tmat(h['start'])
            X, Y = X * k, Y * k
            E[:3, 3] *= k; T0[:3, 3] *= k
            what = 'step %d %s %s N=%d scale=%g' % (n, h['meth'], h['mode'], len(X), k)
            if self.rng.random() < 0.03:       # large clouds with the same optimum
                many = list(range(len(X))) * 200; self.rng.shuffle(many)
                X, Y, W = X[many], Y[many], W[many]
                h = dict(h, rows=[h['rows'][i] for i in many]); what += ', each row 200 times'
            if h['mode'] == 'pairs' and h['meth'] == 'arun' and self.rng.random() < 0.15 and all(r['w'] == 1 for r in h['rows']):
                # squeezed clouds: the same verdict, however thin (collinear stays collinear)
                i, j = self.rng.sample(range(3), 2); D = np.ones(3); D[i] = 10.0 ** self.rng.uniform(-4, 0); D[j] = 10.0 ** self.rng.uniform(-4, 0)
                Q = rotq(np.array([self.rng.gauss(0, 1) for _ in range(4)]))
                X = (X * D) @ Q.T if not h['fails'] or (X == X[0]).all() else X
                if not h['fails']: Y = X @ E[:3, :3].T + E[:3, 3]; what += ', squeezed by %s' % D
                h = dict(h, thin=True)
            if h['meth'] == 'arun': self.arun(h, X, Y, E, T0, what)
            else: self.iterative(h, X, Y, W, E, T0, k, what)
            if self.mism: return
    def arun(self, h, X, Y, E, T0, what):
        size = np.abs(X - X.mean(0)).max() + np.abs(Y - Y.mean(0)).max()
        mag = np.abs(X).max() + np.abs(Y).max()
        ok, T = self.mx.arun(X, Y, self.g.SE3(T0))
        T = np.asarray(T.T())
        P = np.asarray(self.r.arun(X, Y).T())
        if h['fails']:
            self.true('degenerate', ok == 0, what + ': collinear points accepted')
            self.true('degenerate', np.array_equal(T, T0), what + ': output of a refused registration was changed')
            self.true('degenerate', np.array_equal(P, np.eye(4)), what + ': refused registration does not give the identity')
            return
        R, t, gap = horn(X, Y, np.ones(len(X)))
        if h['mode'] == 'free':
            s = np.linalg.svd((X - X.mean(0)).T @ (Y - Y.mean(0)), compute_uv=False)
            if s[1] < 1e-6 * s[0]: return             # no unique rotation, or too close to it
            E = np.eye(4); E[:3, :3], E[:3, 3] = R, t
        elif not h['posed']:
            gap = 0.0
            if ok == 0: return
        elif h.get('thin'):
            s = np.linalg.svd((X - X.mean(0)).T @ (Y - Y.mean(0)), compute_uv=False)
            if s[1] < 3e-9 * s[0] or s[1] < 1e-12 * mag * mag: return        # too thin for double precision
        self.true('refused', ok != 0, what + ': well-posed problem refused')
        if ok == 0: return
        self.close('wrapper', P, T, 0, what + ': Python wrapper')
        self.close('rotation', T[:3, :3] @ T[:3, :3].T, np.eye(3), 1e-9, what + ' orthonormal')
        self.close('rotation', np.linalg.det(T[:3, :3]), 1, 1e-9, what + ' proper')
        self.close('rotation', T[3], [0, 0, 0, 1], 0, what + ' last row')
        eps = 1e-13 * (1 + mag / size)
        c, c0 = cost(X, Y, np.ones(len(X)), T[:3, :3], T[:3, 3]), cost(X, Y, np.ones(len(X)), R, t)
        self.true('optimum', c <= c0 * (1 + 1e-9) + len(X) * (1e-11 * mag) ** 2 + len(X) * size * 1e-11 * mag, what + ': cost %g, optimum %g' % (c, c0))
        if gap > (1e-8 if h.get('thin') else 1e-4):
            self.close('motion', T[:3, :3], E[:3, :3], 100 * eps / gap, what + ' rotation')
            self.close('motion', T[:3, 3], E[:3, 3], (100 * eps / gap) * mag, what + ' translation')
    def iterative(self, h, X, Y, W, E, T0, k, what):
        mx, g = self.mx, self.g
        N = len(X)
        # rows of weight zero carry nothing for gicp: left out there
        if h['meth'] == 'weighted':
            f = lambda X, Y, W, T0, tol=1e-11: mx.weighted_point(X, Y, W, g.SE3(T0), tol)
            fd = lambda T0: mx.weighted_point_default(X, Y, W, g.SE3(T0))
            wrap = lambda: self.r.weighted(X, Y, W)
            A = (X, Y, W)
            scaled = lambda s: (X, Y, W * s)
            perm = lambda p: (X[p], Y[p], W[p])
        else:
            use = W > 0
            X, Y = X[use], Y[use]; N = len(X)
            rows = [r for r in h['rows'] if r['w'] > 0]
            cX = np.vstack([self.COVS[r['cx'] - 1] for r in rows]); cY = np.vstack([self.COVS[r['cy'] - 1] for r in rows])
            f = lambda X, Y, cX, cY, T0, tol=1e-11: mx.gicp(X, Y, cX, cY, g.SE3(T0), tol)
            fd = lambda T0: mx.gicp_default(X, Y, cX, cY, g.SE3(T0))
            wrap = lambda: self.r.gicp(X, Y, cX, cY)
            A = (X, Y, cX, cY)
            scaled = lambda s: (X, Y, cX * s, cY * s)
            def perm(p):
                q = np.concatenate([[3 * i, 3 * i + 1, 3 * i + 2] for i in p])
                return X[p], Y[p], cX[q], cY[q]
        mag = np.abs(X).max() + np.abs(Y).max() + np.abs(E[:3, 3]).max()
        size = np.abs(X - X.mean(0)).max()
        tol = 1e-9 * (1 + mag / size) ** 2
        same = lambda key, T, w, F=1.0, E=None: (self.close(key, T[:3, :3], E[:3, :3], F * tol, w + ' rotation'), self.close(key, T[:3, 3], E[:3, 3], F * tol * (1 + mag), w + ' translation'))
        once = f
        if h['mode'] == 'free':      # inconsistent data: linear convergence, go on from where 20 iterations ended
            def f(*a):
                for _ in range(6):
                    it, T = once(*a)
                    if it < 20: break
                    a = a[:-1] + (np.asarray(T.T()),)
                else: self.slow = True
                return it, T
        self.slow = False
        it, T = f(*A, T0); T = np.asarray(T.T())
        if self.slow: return
        self.true('iterations', 1 <= it <= 20, what + ': %d iterations' % it)
        self.close('rotation', T[:3, :3] @ T[:3, :3].T, np.eye(3), 1e-9, what + ' orthonormal')
        if h['mode'] == 'pairs':
            same('motion', T, what, E=E)
            # the optimum is a fixed point
            it1, T1 = once(*A, E, 1e-7 * (1 + mag)); same('fixed', np.asarray(T1.T()), what + ' started at the optimum', E=E)
            self.true('fixed', it1 == 1, what + ': %d iterations from the optimum' % it1)
            Td = np.asarray(fd(T0)[1].T()); same('motion', Td, what + ' default tolerance', 1e4, E=E)
        else:
            if h['meth'] == 'weighted':
                R, t, gap = horn(X, Y, W)
                O = np.eye(4); O[:3, :3], O[:3, 3] = R, t
                if gap > 0.02: same('optimum', T, what + ' weighted optimum', E=O)
                else: return
            # stationary: sum r' L Jr = 0
            J = np.zeros(6); Hn = 0
            for i in range(N):
                y = T[:3, :3] @ X[i] + T[:3, 3]
                L = np.eye(3) * W[i] if h['meth'] == 'weighted' else np.linalg.inv(A[3][3*i:3*i+3] + T[:3, :3] @ A[2][3*i:3*i+3] @ T[:3, :3].T)
                Jr = np.hstack([hat(y), -np.eye(3)])
                J += (Y[i] - y) @ L @ Jr; Hn += np.linalg.norm(Jr.T @ L @ Jr)
            self.true('stationary', np.abs(J).max() <= 1e-8 * Hn * (1 + mag), what + ': gradient %s at the result' % J)
            E = T
        # order and common scale do not matter
        p = list(range(N)); self.rng.shuffle(p)
        same('order', np.asarray(f(*perm(p), T0)[1].T()), what + ' permuted', 10, E=E)
        same('scale', np.asarray(f(*scaled(self.rng.choice([1e-9, .001, .5, 7, 1e4, 1e8])), T0)[1].T()), what + ' scaled weights', 10, E=E)
        if h['meth'] == 'weighted':
            rep = [i for i in range(N) for _ in range(int(W[i]))]
            if len(rep) >= 3:
                same('repeat', np.asarray(f(X[rep], Y[rep], np.ones(len(rep)), T0)[1].T()), what + ' repeated', 10, E=E)
                m = W > 0
                cY = np.vstack([np.eye(3) / w for w in W[m]])
                if h['mode'] == 'free': T0 = T               # same stationary point
                same('gicp', np.asarray(mx.gicp(X[m], Y[m], 0 * cY, cY, g.SE3(T0), 1e-11)[1].T()), what + ' as gicp', 10, E=E)
                cX = cY * .3
                same('gicp', np.asarray(mx.gicp(X[m], Y[m], cX, .7 * cY, g.SE3(T0), 1e-11)[1].T()), what + ' as gicp', 10, E=E)
        if h['mode'] == 'pairs' and np.linalg.norm(ln_so3(E[:3, :3])) < 0.7:     # the wrapper starts at the identity
            same('wrapper', np.asarray(wrap().T()), what + ' Python wrapper', 1e4, E=E)
