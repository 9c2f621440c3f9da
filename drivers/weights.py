"""Replays RobustKernel: weight of every kernel at exact distances, by direct evaluation and through graphs built at that distance"""
import numpy as np, math
from drv import *
import graph
def val(it): return (it['w'][0] / it['w'][1]) ** it['pw']
class Driver(Base):
    def run(self, batch):
        mx = self.mx
        for it in batch: self.one(it['k'], it['u'], val(it))
        self.steady(batch)
    def one(self, k, u, w):
        mx = self.mx; e = w; x = u[0] / u[1]
        n = mx.node('P2', np.array([[x], [0.], [0.]]), 0)
        f = mx.factor('F1P2', np.zeros((3, 1)), n, n, np.eye(3), False, k)
        self.close('weight', f.weight(x), e, 1e-13 * e, 'weight of kernel %d at %d/%d' % (k, *u))
        # through the graph: W_ = weight * information at residual distance exactly u (along one axis, W = identity)
        g = mx.GraphX(); g.add_node(n); g.add_factor(f)
        q = mx.factor('F1P2', np.array([[x], [0.], [0.]]), n, n, 3 * np.eye(3), False, 0); g.add_factor(q)
        g.solve(False, 1, 0., 0.)
        W = g.W()
        on1 = (u[0] == u[1])            # sqrt(2 chi2) is exact when x = 1: chi2 = 0.5
        if abs(x - 1) > 1e-9 or on1:
            self.close('weight', np.diag(W), [e, e, e, 3, 3, 3], 1e-12, 'W of kernel %d at %d/%d' % (k, *u))
            self.close('weight', f.residual().ravel(), [x, 0, 0], 1e-15 * x, 'residual under kernel %d' % k)
            self.close('weight', f.jacobian(), np.eye(3), 0, 'Jacobian under kernel %d' % k)
            self.close('weight', f.info(), np.eye(3), 0, 'information under kernel %d' % k)
            self.close('weight', f.chi2(), x * x / 2, 1e-14 * x * x, 'error under kernel %d' % k)
    def steady(self, batch):
        """one graph with one factor per entry: nobody disturbs anybody, also at the second solve"""
        mx = self.mx; g = mx.GraphX(); keep = []
        for i, it in enumerate(batch):
            x = it['u'][0] / it['u'][1]
            n = mx.node('L3', np.zeros((3, 1)), 0); g.add_node(n)
            p = mx.node('P3', np.eye(4), 1); g.add_node(p)
            s = 0.25 + (i % 5)
            f = mx.factor('F1L3', np.array([[-x], [0], [0.]]) / math.sqrt(s), p, n, s * np.eye(3), False, it['k']); g.add_factor(f)
            h = mx.factor('F1L3', np.zeros((3, 1)), p, n, 7 * np.eye(3), False, 0); g.add_factor(h)
            keep += [n, p, f, h]
        for rep in range(2):
            g.solve(False, 1, 0., 0.)
            d = np.diag(g.W())
            for i, it in enumerate(batch):
                x = it['u'][0] / it['u'][1]
                if abs(x - 1) < 1e-9: continue
                s = 0.25 + (i % 5); e = val(it) * s
                self.close('weight', d[6 * i:6 * i + 6], [e] * 3 + [7] * 3, 1e-11 * s, 'factor %d of %d (kernel %d at %d/%d), solve %d' % (i, len(batch), it['k'], *it['u'], rep))
            for i in range(len(batch)): keep[4 * i].set_state(np.zeros((3, 1)))
