"""Replays NodeStates behaviours on the real nodes."""
import numpy as np, math, zlib, json
from drv import *
import fgref
def value(k, v):
    if k == 'P2': return np.array([v['x'], v['y'], math.atan2(v['g'][1], v['g'][0])])
    if k == 'P3': return tmat(v)
    if k in ('L2', 'L3'): return np.array(v, float)
    if k == 'PL': return np.r_[np.array(v['n'], float) / v['m'], v['d'] / 4.]
def lnof(e):
    q, t = e['q'], e['t']; v = q[1:]; vt = np.cross(v, t).tolist()
    return lnsym({'a': q[0], 'v': v, 't': t, 'vt': vt, 'vvt': np.cross(v, vt).tolist(), 'w': e['w']})
def col(x):
    x = np.asarray(x, float)
    return x.reshape(-1, 1) if x.ndim == 1 else x
class Driver(Base):
    def cmp(self, key, k, got, v, tol, what, ranged=True):
        e = value(k, v)
        if k == 'P2':
            g = got[:, 0]; d = g - e; d[2] = wrap(d[2])
            self.close(key, d, np.zeros(3), tol * (1 + np.abs(e[:2]).max()), '%s: %s instead of %s' % (what, g, e))
            if ranged: self.true(key, -math.pi <= g[2] < math.pi, '%s: heading %r outside [-pi, pi)' % (what, g[2]))
        elif k == 'P3':
            self.close(key, got, e, tol * (1 + np.abs(e).max()), what)
            R = got[:3, :3]
            self.true(key, np.abs(R @ R.T - np.eye(3)).max() < 1e-6 and np.linalg.det(R) > 0 and np.abs(got[3] - [0, 0, 0, 1]).max() < 1e-12, what + ': not a rigid transformation')
        else:
            self.close(key, got[:, 0], e, tol * (1 + np.abs(e).max()), what)
            if k == 'PL': self.true(key, abs(np.linalg.norm(got[:3, 0]) - 1) < 1e-12, what + ': normal not unit')
    def same(self, k, x, y, what):
        d = x - y
        if k == 'P2': d[2, 0] = wrap(d[2, 0])
        self.close('aux', d, 0 * d, 1e-14 * (1 + np.abs(y).max()), what)
    def run(self, hist):
        mx = self.mx
        rng = np.random.RandomState((zlib.crc32(json.dumps(hist[:3]).encode()) + self.seed) % 2**31)
        loose = 0.0
        for i, r in enumerate(hist):
            op = r['op']
            if op == 'new':
                k = r['k']; v = value(k, r['st'])
                if k == 'PL': v[:3] *= rng.choice([1, 0.5, 3])      # any non-zero length is normalised
                n = mx.node('P3s' if k == 'P3' and rng.rand() < 0.5 else k, col(v), int(rng.rand() < 0.3))
                self.true('dim', n.dim() == fgref.DIM[k], 'dimension of %s' % k)
                s0, a0 = n.state(), n.aux()
                self.cmp('set', k, s0, r['st'], 1e-12, 'initial state', False); self.cmp('set', k, a0, r['ax'], 1e-12, 'initial auxiliary state', False)
                rs = ra = False           # the constructor keeps the heading it is given
                continue
            s0, a0 = n.state().copy(), n.aux().copy()
            tol = 1e-9
            if op in ('upd', 'updaux'):
                d = r['d']; fr = r['from']
                if k == 'P2':
                    turns = int(rng.choice([0, 0, 0, 1, -1, 2, -3, 1000, -20000]))
                    x = np.array([d['x'], d['y'], math.atan2(d['g'][1], d['g'][0]) + 2*math.pi*turns]); tol = 1e-9 + 1e-11 * abs(turns)
                elif k == 'P3': x = lnof(d)
                elif k == 'PL': x = np.r_[d['s'] * np.array(d['n'], float) / d['m'] - np.array(fr['n'], float) / fr['m'], d['d'] / 4.]
                else: x = np.array(d, float)
                if k == 'P3' and op == 'upd' and (r['st']['q'][0] == 0): tol = 1e-6      # regenerated through the logarithm at half a turn
                if op == 'upd': n.update(x)
                else: n.update_from_auxiliary(x)
                self.close('aux', n.aux(), a0, 0, '%s changed the auxiliary state' % op)
            elif op == 'set':
                n.set_state(col(self.noisy(k, r['st'], rng))); self.close('aux', n.aux(), a0, 0, 'set_state changed the auxiliary state')
            elif op == 'setaux':
                n.set_auxiliary_state(col(self.noisy(k, r['ax'], rng))); self.close('aux', n.state(), s0, 0, 'set_auxiliary_state changed the state')
            elif op == 'keep':
                n.keep(); self.close('aux', n.state(), s0, 0, 'set_auxiliary_state changed the state'); self.same(k, n.aux(), s0, 'auxiliary state after bookkeeping')
            elif op == 'restore':
                n.restore(); self.close('aux', n.aux(), a0, 0, 'set_state changed the auxiliary state'); self.same(k, n.state(), a0, 'state after restoring')
            if op in ('upd', 'updaux', 'set', 'restore'): rs = True
            if op in ('setaux', 'keep'): ra = True
            loose = 3 * loose + tol if op == 'upd' else max(loose, tol)
            self.cmp('update' if op.startswith('upd') else 'set', k, n.state(), r['st'], loose, '%s step %d (%s): state' % (k, i, op), rs)
            self.cmp('update' if op.startswith('upd') else 'set', k, n.aux(), r['ax'], loose, '%s step %d (%s): auxiliary state' % (k, i, op), ra)
            if self.bad: return
        # off the lattice: a long run of updates, tiny to large, against the reference
        s = n.state(); a = n.aux().copy(); sc = rng.choice([1e-9, 1e-6, 1e-3, 0.1, 1, 5.])
        for _ in range(12):
            d = rng.randn(fgref.DIM[k]) * sc
            if k == 'PL': d[:3] = np.clip(d[:3], -0.4, 0.4)
            mode = rng.rand()
            if mode < 0.7:
                e = fgref.boxplus(k, n.state(), d); n.update(d)
            else:
                e = fgref.boxplus(k, n.aux(), d); n.update_from_auxiliary(d)
            g = n.state()
            tol = 1e-9 * (1 + np.abs(e).max()) if k != 'P3' else 1e-6 * (1 + np.abs(e).max())
            if k == 'P3' and abs(np.linalg.norm(ln_so3(e[:3, :3])) - math.pi) > 1e-2: tol = 1e-9 * (1 + np.abs(e).max())
            if k == 'P2':
                dd = g - e; dd[2, 0] = wrap(dd[2, 0])
                self.close('update', dd, np.zeros((3, 1)), tol, 'P2 update by %s' % d)
                self.true('update', -math.pi <= g[2, 0] < math.pi, 'heading %r outside [-pi,pi)' % g[2, 0])
            else: self.close('update', g, e, tol, '%s update by %s' % (k, d))
            if k == 'PL': self.true('update', abs(np.linalg.norm(g[:3, 0]) - 1) < 1e-12, 'normal not unit')
            self.close('aux', n.aux(), a, 0, 'auxiliary state changed by an update')
            if self.bad: return
    def noisy(self, k, v, rng):
        """another representative of the same value"""
        x = value(k, v)
        if k == 'P2': x[2] += 2 * math.pi * int(rng.choice([0, 0, 1, -1, 5, -300]))
        if k == 'PL': x[:3] *= rng.choice([1, 0.25, 7])
        return x
