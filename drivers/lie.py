"""Replays LieWords behaviours on mrob SE3 and SO3; opts: axes, angles, trans (the catalogue of the specification)."""
import numpy as np, math
from drv import *

PTS = np.array([(1, 2, 3), (-2, 0, 1), (0, 0, 0), (100, -3, 7), (0.25, -11, 0.5), (1, 1, -1), (0, 0, 1), (-7, 4, 2), (3, 0, 0), (0, -40, 9), (1e-3, 0, 0)], float)

class Driver(Base):
    def setup(self):
        self.g = self.mx.geometry
        o = self.opts
        self.ax = [np.array(a, float) / np.linalg.norm(a) for a in o['axes']]
        self.th = [math.pi * p / q + s * 10.0 ** -e for p, q, s, e in o['angles']]
        self.tr = [np.array(t[:3], float) * 10.0 ** t[3] for t in o['trans']]

    def vec(self, l):
        gen, n = l
        c = n / 2
        A = self.opts['angles'][gen['an'] - 1]
        # evaluate the angle from the symbols, so that multiples are exact
        th = math.pi * (n * A[0]) / (2 * A[1]) + (n * A[2]) / 2 * 10.0 ** -A[3]
        return np.r_[th * self.ax[gen['ax'] - 1], c * self.tr[gen['tr'] - 1]]

    def value(self, w):
        T = np.eye(4)
        for l in w: T = T @ exp_se3(self.vec(l))
        return T
    def scale(self, w):
        return 1 + sum(np.linalg.norm(self.vec(l)[3:]) for l in w)

    def run(self, hist):
        g, mx = self.g, self.mx
        nreg = 1 + max([r.get(x, 0) for r in hist for x in ('i', 'j', 'k')] + [0])
        W = [[] for _ in range(nreg)]; V = [np.eye(4) for _ in range(nreg)]; SC = [1.0] * nreg
        S = [g.SE3() for _ in range(nreg)]; O = [g.SO3() for _ in range(nreg)]
        loose = [0.0] * nreg; path = [1.0] * nreg
        for n, r in enumerate(hist):
            op, k, i, j = r['op'], r.get('k'), r.get('i'), r.get('j')
            if k is not None:
                x = self.vec(r['l']) if 'l' in r else None
                new, p = 0.0, 1.0
                if op == 'exp':
                    x0 = x.copy()
                    S[k], O[k] = g.SE3(x), g.SO3(x[:3])
                    p = 1 + np.linalg.norm(x[3:])
                    T = np.asarray(mx.se3_exp_hat(g.hat6(x)).T())
                    self.close(op, T, exp_se3(x), 1e-12 * p, 'SE3::exp of %s' % x)
                    self.close(op, mx.so3_exp_hat(g.hat3(x[:3])).R(), exp_so3(x[:3]), 1e-12, 'SO3::exp of %s' % x)
                elif op == 'mul':
                    S[k], O[k] = (S[i].mul(S[j]), O[i].mul(O[j])) if n % 2 else (S[i] * S[j], O[i].mul(O[j]))
                    new = loose[i] + loose[j]; p = path[i] + path[j]
                elif op == 'inv':
                    new = loose[i]; p = path[i]
                    S[k], O[k] = S[i].inv(), O[i].inv()
                elif op == 'copy':
                    new = loose[i]; p = path[i]
                    if n % 3 == 0: S[k], O[k] = g.SE3(S[i]), g.SO3(O[i])
                    elif n % 3 == 1: S[k], O[k] = (mx.se3_self_assign(S[i]) if i == k else mx.se3_assign(S[i], S[k])), mx.so3_assign(O[i], O[k])
                    else: S[k], O[k] = g.SE3(g.SO3(S[i].R()), np.array(S[i].t())), g.SO3(np.array(O[i].R()))
                elif op in ('updl', 'upd', 'updr'):
                    f = {'updl': 'update_lhs', 'updr': 'update_rhs', 'upd': 'update'}[op]
                    getattr(S[k], f)(x); getattr(O[k], f)(x[:3]); new = loose[k]; p = path[k] + np.linalg.norm(x[3:]) + 1
                elif op in ('conj', 'swap'):
                    y = np.asarray(S[i].adj()) @ x
                    yr = np.asarray(O[i].adj()) @ x[:3]
                    new = loose[i] * (1 + np.linalg.norm(x)); p = 2 * path[i] * (1 + np.linalg.norm(x[:3])) + np.linalg.norm(x[3:]) + 1
                    if op == 'conj': S[k], O[k] = g.SE3(y), g.SO3(yr)
                    else: S[k], O[k] = g.SE3(y) * S[i], g.SO3(yr).mul(O[i])
                elif op == 'regen':
                    d = math.pi - np.linalg.norm(ln_so3(V[k][:3, :3]))
                    new = loose[k] * 3 + (1e-6 if d < 1e-5 or loose[k] else 0); p = path[k] * 2
                    if n % 2: S[k], O[k] = mx.se3_regenerate(S[k]), g.SO3(O[k].Ln())
                    else: S[k], O[k] = g.SE3(S[k].Ln()), mx.so3_exp_hat(mx.so3_ln_hat(O[k])[0])
                W[k] = r['w']; V[k] = self.value(r['w']); SC[k] = max(self.scale(r['w']), p); loose[k] = new; path[k] = p
            elif op == 'ln':
                self.ln(S[i], O[i], W[i], V[i], SC[i], loose[i], r)
            elif op == 'points':
                rows = r['rows']
                P = np.resize(np.roll(PTS, n * 3 + i, axis=0), (rows, 3)) if rows else np.zeros((0, 3))
                P = P + np.arange(rows)[:, None] * (0.5, -0.25, 0.125) / (1 + rows)
                sc = 1 + np.abs(P).max(initial=0)
                def act(T, X): return X @ T[:3, :3].T + T[:3, 3]
                got = S[i].transform_array(P)
                self.close(op, got, act(V[i], P), (1e-10 + loose[i]) * SC[i] * sc, 'transform_array by %s' % W[i])
                self.close(op, S[i].transform_array(np.asfortranarray(P)), act(V[i], P), (1e-10 + loose[i]) * SC[i] * sc, 'transform_array, column major')
                for q, e in list(zip(P, act(V[i], P)))[:7]:
                    self.close(op, np.asarray(S[i].transform(q)).ravel(), e, (1e-10 + loose[i]) * SC[i] * sc, 'transform by %s' % W[i])
                t = (1e-10 + loose[i] + loose[j]) * (SC[i] + SC[j]) * sc * 4
                D = self.value(r['w'])
                for nm, got in (('product of two', (S[i] * S[j]).transform_array(P)), ('one after the other', S[i].transform_array(np.asarray(S[j].transform_array(P))))):
                    self.close(op, got, act(D, P), t, 'points under %s' % nm)
                self.close(op, S[i].inv().transform_array(P), act(self.value(r['v']), P), t, 'points under the inverse of %s' % W[i])
                self.close(op, S[i].inv().transform_array(np.asarray(S[i].transform_array(P))), P, t, 'points forth and back by %s' % W[i])
            elif op == 'adj':
                self.close(op, S[i].adj(), adj_se3(V[i]), (1e-9 + loose[i]) * SC[i] * 2, 'adj')
                self.close(op, O[i].adj(), V[i][:3, :3], 1e-9 + loose[i], 'SO3.adj')
            elif op == 'dist':
                D = self.value(r['w'])
                x = ln_se3(D)
                d = math.pi - np.linalg.norm(x[:3])
                same = not r['w']
                # the angle of a relative rotation near zero or half a turn is ill conditioned
                t1 = 1e-8 + min(1e-6, 1e-14 / max(d, 1e-9)) + loose[i] + loose[j] + (1e-7 if (loose[i] or loose[j]) else 0)
                s = SC[i] + SC[j]
                for nm, got, exp, t in (('distance', S[i].distance(S[j]), np.linalg.norm(x), t1 * s * 3),
                                     ('distance swapped', S[j].distance(S[i]), np.linalg.norm(x), t1 * s * 3),
                                     ('distance_rotation', S[i].distance_rotation(S[j]), np.linalg.norm(x[:3]), t1 * 3),
                                     ('distance_rotation swapped', S[j].distance_rotation(S[i]), np.linalg.norm(x[:3]), t1 * 3),
                                     ('SO3.distance', O[i].distance(O[j]), np.linalg.norm(x[:3]), t1 * 3),
                                     ('distance_trans', S[i].distance_trans(S[j]), np.linalg.norm(V[i][:3, 3] - V[j][:3, 3]), (1e-9 + loose[i] + loose[j]) * s),
                                     ('distance_trans swapped', S[j].distance_trans(S[i]), np.linalg.norm(V[i][:3, 3] - V[j][:3, 3]), (1e-9 + loose[i] + loose[j]) * s)):
                    self.close(op, got, exp, t, '%s between %s and %s' % (nm, W[i], W[j]))
            for m in range(1, nreg):
                t = (1e-10 + loose[m]) * SC[m]
                a = np.asarray(S[m].T()); b = np.asarray(O[m].R())
                self.checks += 1
                if not np.all(np.abs(a - V[m]) <= t) or not np.array_equal(a[3], [0, 0, 0, 1]):
                    self.close(op, a, V[m], t, 'SE3 register %d, word %s, after step %d %s' % (m, W[m], n, op)); self.true(op, np.array_equal(a[3], [0, 0, 0, 1]), 'last row'); return
                if not np.all(np.abs(b - V[m][:3, :3]) <= 1e-10 + loose[m]):
                    self.close(op, b, V[m][:3, :3], 1e-10 + loose[m], 'SO3 register %d, word %s, after step %d %s' % (m, W[m], n, op)); return

    def ln(self, S, O, w, V, sc, loose, r):
        x = np.asarray(S.Ln()).ravel(); y = np.asarray(O.Ln()).ravel()
        op = 'ln'
        ang = np.linalg.norm(ln_so3(V[:3, :3]))
        d = max(math.pi - ang, 1e-12)
        t = 1e-9 + min(2e-7, 1e-14 / d) + loose * 2 + (3e-6 if loose and d < 0.1 else 0)
        self.true(op, np.linalg.norm(x[:3]) <= math.pi + 1e-9 and np.linalg.norm(y) <= math.pi + 1e-9, 'the rotation part of Ln is longer than pi: %s %s' % (x, y))
        # Exp(Ln) is the element, by the reference and by the code
        self.close(op, exp_se3(x), V, t * 4 * sc, 'Ln of %s does not exponentiate (reference Exp) to it' % w)
        self.close(op, g_T(self.g.SE3(x)), V, t * 4 * sc, 'Exp(Ln) of %s' % w)
        self.close(op, exp_so3(y), V[:3, :3], t * 2, 'SO3 Ln of %s does not exponentiate to it' % w)
        self.close(op, self.g.SO3(y).R(), V[:3, :3], t * 2, 'SO3 Exp(Ln) of %s' % w)
        if r['single']:
            p = r['pr']; l = w[0]
            th = math.pi * p['P'] / p['Q'] + p['S'] / 2 * 10.0 ** -p['e']
            e = th * self.ax[l[0]['ax'] - 1]
            half = p['half'] or d < 1e-8
            for nm, got in (('SE3.Ln', x[:3]), ('SO3.Ln', y)):
                ee = -e if half and np.dot(got, e) < 0 else e
                self.close(op, got, ee, t, '%s rotation of Exp(%s)' % (nm, self.vec(l)))
            if p['turns'] == 0 and not half:
                self.close(op, x, self.vec(l), t * sc * 2, 'Ln(Exp(x))')
def g_T(s): return np.asarray(s.T())
