"""Replays PlaneFit behaviours on estimate_plane, estimate_normal, estimate_centroid."""
import numpy as np, random
from drv import *
class Driver(Base):
    def setup(self):
        self.r = self.mx.registration; self.rng = random.Random(self.seed)
    def run(self, hist):
        for n, h in enumerate(hist):
            k = 10.0 ** h['scale']
            P = np.array([np.array(p['p'], float) / p['w'] for p in h['pts']]) * k
            c = np.array(h['centroid']['p'], float) / h['centroid']['w'] * k
            mag = np.abs(P).max() + 1e-300
            what = 'step %d, %d points, scale %g' % (n, len(P), k)
            self.close('centroid', self.r.estimate_centroid(P), c, 1e-13 * mag, what + ' centroid')
            order = list(range(len(P))); self.rng.shuffle(order)
            self.close('centroid', self.r.estimate_centroid(P[order]), c, 1e-13 * mag, what + ' centroid, other order')
            if not h['unique']: continue
            A, D, H, B2 = h['A'], h['D'], h['H'], h['B2']
            big = (A + D) / 2 + math.sqrt((A - D) ** 2 / 4 + B2)
            small = ((A - H) * (D - H) - B2) / (big - H)        # smallest in-plane scatter minus the scatter across
            size = math.sqrt(big) / len(P) * k
            # the closed form of the 3x3 eigenproblem loses accuracy with the square of the ratio of scatters
            tol = 1e-13 * (1 + mag / size) * (1 + (big / small) ** 2)
            if tol > 1e-4: continue
            v = np.array(h['normal'], float); v /= np.linalg.norm(v)
            todo = [(P, what), (P[order], what + ', other order')]
            if self.rng.random() < 0.05:       # a large cloud with the same moments
                many = list(range(len(P))) * 250; self.rng.shuffle(many)
                todo.append((P[many], what + ', each point 250 times'))
            for Q, w in todo:
                p = np.asarray(self.r.estimate_plane(Q)).ravel(); nn = np.asarray(self.r.estimate_normal(Q)).ravel()
                if not self.true('shape', p.shape == (4,) and nn.shape == (3,), w): return
                self.close('unit', np.linalg.norm(p[:3]), 1, 1e-12, w + ' normal')
                self.close('helper', nn if nn @ p[:3] > 0 else -nn, p[:3], 1e-12, w + ' estimate_normal')
                self.close('normal', p[:3] if p[:3] @ v > 0 else -p[:3], v, tol, w + ' normal')
                self.close('through', p[:3] @ c + p[3], 0, 1e-11 * mag, w + ': distance of the centroid to the plane')
                if h['flat']: self.close('through', P @ p[:3] + p[3], np.zeros(len(P)), tol * size + 1e-12 * mag, w + ': points of an exact plane')
            if self.mism: return
