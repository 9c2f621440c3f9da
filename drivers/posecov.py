"""Replays PoseCov behaviours on mrob SE3Cov."""
import numpy as np
from drv import *
class Driver(Base):
    def setup(self): self.g = self.mx.geometry
    def run(self, hist):
        g = self.g
        nreg = 1 + max([r.get(x, 0) for r in hist for x in ('i', 'j', 'k')])
        Z = np.zeros((6, 6))
        R = [g.SE3Cov() for _ in range(nreg)]
        E = [(np.eye(4), None) for _ in range(nreg)]     # the default covariance is not part of the property
        for k in range(nreg):
            R[k] = g.SE3Cov(g.SE3(), Z); E[k] = (np.eye(4), Z)
        for n, r in enumerate(hist):
            op, k, i, j = r['op'], r['k'], r.get('i'), r.get('j')
            T, C = tmat(r['T']), np.array(r['C']['S'], float) / r['C']['d']
            if op == 'load': R[k] = g.SE3Cov(g.SE3(T), C)
            elif op == 'c2': R[k] = R[i].compound_2nd_order(R[j])
            elif op == 'c4': R[k] = R[i].compound_4th_order(R[j])
            elif op in ('c2m', 'c4m'):
                f = R[i].compound_2nd_order if op == 'c2m' else R[i].compound_4th_order
                R[k] = f(g.SE3(tmat(r['g'])), np.array(r['c'], float))
            elif op == 'mul': R[k] = R[i].mul(R[j])
            elif op == 'star': R[k] = R[i] * R[j]
            elif op == 'copy': R[k] = g.SE3Cov(R[i])
            E[k] = (T, C)
            for m in range(1, nreg):
                t, c = E[m]
                self.close(op, R[m].T(), t, 1e-9 * (1 + np.abs(t).max()), 'pose of register %d after step %d %s' % (m, n, op))
                self.close(op, R[m].cov(), c, 1e-9 * (1 + np.abs(c).max()), 'covariance of register %d after step %d %s' % (m, n, op))
                S = np.asarray(R[m].cov())
                self.close(op, S, S.T, 1e-9 * (1 + np.abs(c).max()), 'symmetry')
            if self.mism: return
