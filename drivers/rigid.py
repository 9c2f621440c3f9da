"""Replays RigidGroup behaviours on mrob SE3 (and, in parallel, on SO3 for the rotation part)."""
import numpy as np, math
from drv import *
SCALES = (1.0, -1.0, 7.5, -0.01, 1e6, 1e-4) + tuple(f * (1 + d * 10.0 ** -e) for e, d, f in zip(range(1, 13), [1, -1, 4, -4, 9] * 3, [1, -1] * 6))

class Driver(Base):
    def setup(self):
        self.g = self.mx.geometry

    def run(self, hist):
        g, mx = self.g, self.mx
        nreg = 1 + max([r.get(x, 0) for r in hist for x in ('i', 'j', 'k')] + [0])
        E = [{'q': [1, 0, 0, 0], 't': [0, 0, 0], 'w': 1} for _ in range(nreg)]
        S = [g.SE3() for _ in range(nreg)]
        O = [g.SO3() for _ in range(nreg)]
        loose = [0.0] * nreg      # extra tolerance inherited from logarithms at half a turn

        def tol(k, extra=0.0):
            s = 1 + max(abs(x) for x in E[k]['t']) / E[k]['w']
            return (1e-9 + loose[k] + extra) * s
        def lnof(e):
            q, t = e['q'], e['t']
            v = q[1:]
            vt = np.cross(v, t).tolist(); vvt = np.cross(v, vt).tolist()
            return lnsym({'a': q[0], 'v': v, 't': t, 'vt': vt, 'vvt': vvt, 'w': e['w']})
        for n, r in enumerate(hist):
            op = r['op']; k = r.get('k'); i = r.get('i'); j = r.get('j')
            key = op
            if k is not None:
                e = r['res']
                T = tmat(e)
                new = 0.0
                if op == 'load':
                    S[k] = g.SE3(T); O[k] = g.SO3(T[:3, :3])
                elif op == 'exp':
                    x = lnof(e); S[k] = g.SE3(x); O[k] = g.SO3(x[:3])
                elif op == 'Rt':
                    S[k] = g.SE3(g.SO3(T[:3, :3]), T[:3, 3]) if n % 2 else mx.se3_Rt(T[:3, :3], T[:3, 3]); O[k] = g.SO3(g.SO3(T[:3, :3]))
                elif op == 'mul':
                    S[k], O[k] = S[i].mul(S[j]), O[i].mul(O[j]); new = loose[i] + loose[j]
                elif op == 'star':
                    S[k], O[k] = (S[i] * S[j], mx.so3_star(O[i], O[j])) if n % 2 else (mx.se3_ops(S[i], S[j]), mx.so3_star(O[i], O[j])); new = loose[i] + loose[j]
                elif op == 'inv':
                    S[k], O[k] = S[i].inv(), O[i].inv(); new = loose[i]
                elif op == 'copy':
                    S[k], O[k] = g.SE3(S[i]), g.SO3(O[i]); new = loose[i]
                elif op == 'assign':
                    S[k] = mx.se3_self_assign(S[i]) if i == k else mx.se3_assign(S[i], S[k])
                    O[k] = mx.so3_assign(O[i], O[k]); new = loose[i]
                elif op == 'regen':
                    new = loose[k] * 3 + (1e-6 if E[k]['q'][0] == 0 or loose[k] else 0)
                    if n % 2:
                        S[k] = mx.se3_regenerate(S[k]); O[k] = g.SO3(O[k].Ln())
                    else:
                        S[k] = g.SE3(S[k].Ln()); O[k] = mx.so3_exp_hat(mx.so3_ln_hat(O[k])[0])
                elif op in ('updl', 'updr', 'upd'):
                    x = lnof(r['g'])
                    f = {'updl': 'update_lhs', 'updr': 'update_rhs', 'upd': 'update'}[op]
                    getattr(S[k], f)(x); getattr(O[k], f)(x[:3]); new = loose[k]
                E[k] = e; loose[k] = new
            elif op in ('point', 'points'):
                P = np.array(r['p'], float)
                exp = rat(r['val'])
                sc = 1 + np.abs(P).max()
                if op == 'point':
                    self.close(key, S[i].transform(P), exp, tol(i) * sc, 'transform at step %d' % n)
                    self.close(key, S[i].transform_array(P.reshape(1, 3))[0], exp, tol(i) * sc, 'transform_array of one row')
                else:
                    self.close(key, S[i].transform_array(P), exp, tol(i) * sc, 'transform_array at step %d' % n)
                    self.close(key, S[i].transform_array(np.asfortranarray(P)), exp, tol(i) * sc, 'transform_array, column major')
            elif op == 'read':
                exp = rat(r['val'])
                self.close(key, S[i].T(), exp, tol(i), 'T()'); self.close(key, mx.se3_ref(S[i]), exp, tol(i), 'ref2T()')
                self.close(key, S[i].R(), exp[:3, :3], tol(i), 'R()'); self.close(key, S[i].t(), exp[:3, 3], tol(i), 't()')
                self.close(key, O[i].R(), exp[:3, :3], tol(i), 'SO3.R()'); self.close(key, mx.so3_ref(O[i]), exp[:3, :3], tol(i), 'SO3.ref2R()')
            elif op == 'adj':
                exp = rat(r['val'])
                self.close(key, S[i].adj(), exp, tol(i) * (1 + np.abs(exp).max()), 'adj()')
                self.close(key, O[i].adj(), exp[:3, :3], tol(i), 'SO3.adj()')
            elif op == 'ln':
                self.ln(key, S[i], O[i], r['val'], tol(i), loose[i])
            elif op == 'dist':
                L = r['val']
                x = lnof({'q': [L['a']] + L['v'], 't': L['t'], 'w': L['w']})
                dt = rat(r['dt'])
                tt = tol(i) + tol(j) + (3e-6 if L['a'] == 0 else 0)
                tt *= 1 + np.linalg.norm(x[3:])
                d = np.linalg.norm(x)
                self.close(key, S[i].distance(S[j]), d, tt, 'distance(%s,%s)' % (E[i], E[j]))
                self.close(key, S[j].distance(S[i]), d, tt, 'distance, swapped')
                self.close(key, S[i].distance_rotation(S[j]), np.linalg.norm(x[:3]), tt, 'distance_rotation')
                self.close(key, S[j].distance_rotation(S[i]), np.linalg.norm(x[:3]), tt, 'distance_rotation, swapped')
                self.close(key, O[i].distance(O[j]), np.linalg.norm(x[:3]), tt, 'SO3.distance')
                self.close(key, S[i].distance_trans(S[j]), np.linalg.norm(dt), tt, 'distance_trans')
                self.close(key, S[j].distance_trans(S[i]), np.linalg.norm(dt), tt, 'distance_trans, swapped')
                if i == j:
                    xi = lnof(E[i])
                    ti = tol(i) * (1 + np.linalg.norm(xi)) + (3e-6 * (1 + np.linalg.norm(xi)) if E[i]['q'][0] == 0 else 0)
                    self.close(key, S[i].distance(), np.linalg.norm(xi), ti, 'distance() of one element')
                    self.close(key, S[i].distance_rotation(), np.linalg.norm(xi[:3]), ti, 'distance_rotation() of one element')
                    self.close(key, S[i].distance_trans(), np.linalg.norm(rat_t(E[i])), ti, 'distance_trans() of one element')
            elif op == 'quat':
                q = np.array(r['val'], float); q /= np.linalg.norm(q)
                got = np.asarray(g.so3_to_quat(O[i].R())).ravel()
                exp = q[[1, 2, 3, 0]]
                if np.dot(got, exp) < 0: exp = -exp
                self.close(key, got, exp, tol(i, 1e-9), 'so3_to_quat')
                for s in SCALES:
                    self.close(key, g.quat_to_so3(s * exp), rotq(r['val']), tol(i), 'quat_to_so3 of a multiple')
                self.close(key, g.quat_to_so3(g.so3_to_quat(O[i].R())), rotq(r['val']), tol(i), 'quaternion round trip')
            elif op == 'valid':
                self.true(key, g.isSE3(S[i].T()) if not loose[i] else True, 'isSE3 rejects a transformation at step %d' % n)
                self.true(key, g.isSO3(O[i].R()) if not loose[i] else True, 'isSO3 rejects a rotation at step %d' % n)
            # every register must hold what the specification says: operands are untouched
            for m in range(1, nreg):
                T = tmat(E[m])
                a = np.asarray(S[m].T())
                self.checks += 1
                if not np.all(np.abs(a - T) <= tol(m)):
                    self.close(key, a, T, tol(m), 'SE3 register %d after step %d %s' % (m, n, op)); return
                if not (np.array_equal(a[3], [0, 0, 0, 1])):
                    self.fail(key, 'last row %s' % a[3]); return
                b = np.asarray(O[m].R())
                if not np.all(np.abs(b - T[:3, :3]) <= tol(m)):
                    self.close(key, b, T[:3, :3], tol(m), 'SO3 register %d after step %d %s' % (m, n, op)); return

    def ln(self, key, S, O, L, tol, loose):
        half = L['a'] == 0
        if half: tol = tol + 3e-6
        else:
            # close to half a turn the logarithm is ill conditioned
            d = math.pi - 2 * math.atan2(np.linalg.norm(L['v']), L['a'])
            tol = tol + 1e-15 / d + (3e-6 if loose and d < 0.1 else 0)
        x, y = lnsym(L), lnsym(L, -1)
        s = 1 + np.linalg.norm(x[3:]) + np.linalg.norm(L['t']) / L['w']
        for nm, got in (('SE3.Ln()', np.asarray(S.Ln()).ravel()), ('SE3::ln vee', np.asarray(self.mx.vee6(self.mx.se3_ln_hat(S))).ravel())):
            exp = y if half and np.dot(got[:3], x[:3]) < 0 else x
            self.close(key, got, exp, tol * s, nm)
        got = np.asarray(O.Ln()).ravel()
        exp = y if half and np.dot(got, x[:3]) < 0 else x
        self.close(key, got, exp[:3], tol, 'SO3.Ln()')
        W, o = self.mx.so3_ln_hat(O)
        self.close(key, o, np.linalg.norm(x[:3]), max(tol, 1e-7 if np.linalg.norm(x[:3]) < 1e-6 else tol), 'angle reported by SO3::ln')
        self.close(key, W, -np.asarray(W).T, 1e-12, 'SO3::ln is skew')

def rat_t(e):
    return np.array(e['t'], float) / e['w']
