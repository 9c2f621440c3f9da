"""Replays cases of Conversions."""
import numpy as np, math
from drv import *
class Driver(Base):
    def setup(self): self.g = self.mx.geometry
    def run(self, item):
        c = item[0]; g, mx = self.g, self.mx
        k = c['kind']
        if k == 'rpy':
            a = np.array([math.atan2(c[x][1], c[x][0]) + 2 * math.pi * c['n'] for x in 'abc'])
            exp = rat(c['val'])
            self.close(k, g.rpy_to_so3(a), exp, 1e-12, 'rpy_to_so3(%s)' % a)
            q = np.asarray(g.so3_to_quat(g.rpy_to_so3(a))).ravel()
            self.close(k, np.linalg.norm(q), 1, 1e-9, 'norm of the quaternion')
            self.close(k, g.quat_to_so3(q), exp, 1e-9, 'quaternion round trip')
            self.close(k, g.quat_to_so3(-q), exp, 1e-9, 'opposite quaternion')
            self.true(k, g.isSO3(g.rpy_to_so3(a)), 'isSO3 of a rotation')
        elif k == 'hat':
            w, v = np.array(c['w'], float), np.array(c['v'], float)
            for s in (1.0, 1e-7, 1e8):
                W = np.asarray(g.hat3(s * w))
                self.close(k, W, s * np.array(c['hat']), 0, 'hat3')
                self.close(k, W @ v, s * np.array(c['cross']), 1e-9 * s * 1e3, 'hat3(w) v')
                self.close(k, mx.vee3(W), s * w, 0, 'vee3(hat3)')
                x = s * np.r_[w, v]
                H = np.asarray(g.hat6(x))
                self.close(k, H, s * np.array(c['hat6']), 0, 'hat6')
                self.close(k, mx.vee6(H), x, 0, 'vee6(hat6)')
                self.close(k, g.curley_wedge(x), s * np.array(c['curly']), 0, 'curly wedge')
        elif k == 'mod':
            M = np.array(c['M'], float) / c['den']
            T = np.eye(4); T[:3, :3] = M; T[:3, 3] = c['t']; T[3] = c['bottom']
            self.true(k, g.isSO3(M) == c['so3'], 'isSO3 = %s for %s' % (not c['so3'], M.tolist()))
            self.true(k, g.isSE3(T) == c['se3'], 'isSE3 = %s for %s' % (not c['se3'], T.tolist()))
        elif k == 'pert':
            T = np.eye(4); T[:3, :3] = np.array(c['M'], float) / c['den']; T[:3, 3] = [1, -2, 30]
            T[c['r'] - 1, c['c'] - 1] += c['s'] * 10.0 ** -c['k']
            if c['verdict'] == 'any': return
            exp = c['verdict'] == 'valid'
            # a first order change of the entry can be tangent to the group only if the entry's row and column allow it: it never is for a single entry
            self.true(k, g.isSE3(T) == exp, 'isSE3 = %s for %s' % (not exp, T.tolist()))
            if c['rot']: self.true(k, g.isSO3(T[:3, :3]) == exp, 'isSO3 = %s for %s' % (not exp, T[:3, :3].tolist()))
        elif k == 'nan':
            T = np.eye(4); T[c['r'] - 1, c['c'] - 1] = float(c['what'])
            if c['free']: return
            self.true(k, not g.isSE3(T), 'isSE3 accepts %s' % T.tolist())
            if c['r'] <= 3 and c['c'] <= 3: self.true(k, not g.isSO3(T[:3, :3]), 'isSO3 accepts %s' % T.tolist())
