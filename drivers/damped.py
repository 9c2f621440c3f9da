"""Replays DampedControl histories: the error landscape is scripted so that every proposal has the outcome the specification chose."""
import numpy as np, math, zlib, json
from drv import *
import fgref
LAM = [1e-3, 0.5, 3.0, 1e-8, 1e3]
def damping(rng, its):
    """a start damping; a tiny or no one only where no step is rejected (steps which differ by it could not be told apart)"""
    k = rng.randint(5); u = rng.uniform(0.6, 1.9)
    if k < 3: return [1e-3, 0.5, 3.0][k] * u
    if any(r['class'] == 'worse' for r in its): return 0.1 * u
    return 1e-8 * u if k == 3 else 0.0
class Landscape:
    """error of every visited point, decided at its first visit by the next outcome of the script"""
    def __init__(self, same, E0):
        self.pts, self.same, self.E0 = [], same, E0         # (point, error)
        self.pending = None                                  # error of the next new point
        self.surprise = 0
    def error(self, x):
        for i, (y, e) in enumerate(self.pts):
            if self.same(x, y): return e
        if not self.pts: e = self.E0
        elif self.pending is None: e = self.pts[-1][1] + 1; self.surprise += 1
        else: e = self.pending()
        self.pts.append(([np.array(v) for v in x], e))
        return e

class Driver(Base):
    def run(self, hist):
        self.rng = np.random.RandomState((zlib.crc32(json.dumps(hist, sort_keys=True).encode()) + self.seed) % 2**31)
        self.outs = self.opts['outcomes']
        # split into calls
        calls = []
        for r in hist:
            if r['op'] == 'start': calls.append([r])
            else: calls[-1].append(r)
        (self.sparse if calls[0][0]['method'] == 'sparse' else self.generic)(calls)

    # the next new point visited from `from` gets its error from the script
    def script(self, land, it, cur_err, pred, tol):
        o = self.outs[it['o'] - 1]
        q = o['n'] / o['d']
        delta = q * (pred if o['kind'] == 'ratio' else tol if o['kind'] == 'tol' else 1e-3 * tol)
        return cur_err - delta

    # ---- FGraphSolve ----
    def sparse(self, calls):
        mx, rng = self.mx, self.rng
        nk = list(rng.choice(['P2', 'P3', 'L2', 'L3', 'PL'], rng.randint(1, 4)))
        anch = [bool(rng.rand() < 0.25) for _ in nk]
        if all(anch): anch[rng.randint(len(nk))] = False
        g = mx.GraphX(); hs = []
        for k, a in zip(nk, anch):
            x = {'P2': lambda: np.array([[rng.randn()], [rng.randn()], [rng.uniform(-3.1, 3.1)]]), 'L2': lambda: rng.randn(2, 1), 'L3': lambda: rng.randn(3, 1),
                 'P3': lambda: exp_se3(rng.randn(6)), 'PL': lambda: np.r_[[[1.], [0], [0]], rng.randn(1, 1)]}[k]()
            h = mx.node(k, x, int(a)); g.add_node(h); hs.append(h)
        dims = [fgref.DIM[k] for k in nk]; n = sum(d for d, a in zip(dims, anch) if not a)
        cols = np.concatenate([np.full(d, not a) for d, a in zip(dims, anch)])
        # J has orthonormal columns for the active part scaled by s: L = s^2 I, b = J' r
        s = 10.0 ** rng.uniform(-0.3, 0.3)
        m = sum(dims)
        J = s * np.eye(m)
        r = rng.uniform(0.5, 1.5, m) * rng.choice([-1, 1], m) * 20
        wi = rng.permutation(m)[:1]
        Wd = rng.uniform(0.5, 2, m)
        W = np.diag(Wd)
        act = np.where(cols)[0]
        sc = float(rng.choice([1, 1, 1, 1e-9, 1e9]))          # of the whole problem: information, errors, damping and tolerance
        Wd = Wd * sc; W = W * sc
        Ld = s * s * Wd[act]; b = s * Wd[act] * r[act]
        def states(): return [h.state() for h in hs]
        def same(x, y):
            for k, u, v in zip(nk, x, y):
                d = u - v
                if k == 'P2': d = d.copy(); d[2, 0] = wrap(d[2, 0])
                if np.abs(d).max() > 1e-9: return False
            return True
        land = Landscape(same, sc * float(rng.choice([1000.0, 1e5, 150.0])))
        part = rng.uniform(0, 0.5)
        f1 = mx.MockFactor(hs, r, J, W, lambda f: (1 - part) * land.error(states()), 0)
        f2 = mx.MockFactor([hs[0]], np.zeros(2), np.zeros((2, dims[0])), np.eye(2), lambda f: part * land.error(states()), 0)
        g.add_factor(f1); g.add_factor(f2)
        pts = [states()]                 # accepted/proposed points by proposal number
        err = [land.error(states())]
        for call in calls:
            tol = sc * 10.0 ** rng.randint(-3, -1)
            its = [x for x in call if x['op'] == 'iter']; stop = call[-1]
            lam0 = sc * damping(rng, its)
            nxt = iter(its)
            queue = list(its)
            log = []
            def pending():
                if not queue: land.surprise += 1; return err[-1] + sc
                it = queue.pop(0)
                lam = lam0 * 2.0 ** it['e']
                dx = b / (Ld + lam)
                pred = dx @ b - 0.5 * dx @ ((Ld + lam) * dx)
                e = self.script(land, it, err[it['from']], pred, tol)
                log.append((it, dx)); err.append(e)
                return e
            land.pending = pending
            base = len(land.pts)
            land.surprise = 0
            g.solve(True, call[0]['limit'], lam0, tol)
            seen = [p for p, _ in land.pts[base:]]
            for j, (it, dx) in enumerate(log):
                if j >= len(seen): break
                src = pts[it['from']]; exp = []; a0 = 0
                for k, a, x in zip(nk, anch, src):
                    if a: exp.append(x); continue
                    d = fgref.DIM[k]; exp.append(fgref.boxplus(k, x, -dx[a0:a0 + d])); a0 += d
                if not self.true('schedule', self.near(nk, seen[j], exp, 1e-7), 'proposal %d of a damped solve (start damping %g, expected exponent %d): %s instead of %s' % (it['prop'], lam0, it['e'], [x.ravel().tolist() for x in seen[j]], [x.ravel().tolist() for x in exp])): return
                pts.append(seen[j])
            if not self.true('limit', len(seen) == stop['iters'] and land.surprise == 0 and not queue,
                             '%d proposals instead of %d (%s, limit %d): %s' % (len(seen), stop['iters'], stop['why'], call[0]['limit'], [self.outs[x['o'] - 1] for x in its])): return
            fin = states()
            if not self.true('undo', self.near(nk, fin, pts[stop['pos']], 1e-12), 'after the solve the state is not point %d: %s instead of %s' % (stop['pos'], [x.ravel().tolist() for x in fin], [x.ravel().tolist() for x in pts[stop['pos']]])): return
            self.true('never worse', g.chi2(True) <= err[call[0]['pos']] + 1e-12 * (sc + max(abs(e) for e in err)), 'the error grew')
            for h, a, x in zip(hs, anch, pts[0]):
                if a: self.close('undo', h.state(), x, 0, 'an anchor moved')
            if self.bad: return

    def near(self, nk, x, y, tol):
        for k, u, v in zip(nk, x, y):
            d = np.asarray(u) - np.asarray(v)
            if k == 'P2': d[2, 0] = wrap(d[2, 0])
            if not np.abs(d).max() <= tol * (1 + np.abs(v).max()): return False
        return True

    # ---- generic optimiser ----
    def generic(self, calls):
        mx, rng = self.mx, self.rng
        n = rng.randint(1, 6) if rng.rand() < .9 else rng.randint(7, 25)
        sc = float(rng.choice([1, 1, 1, 1e-10, 1e10]))
        x = rng.randn(n)
        M = rng.randn(n, n); H0 = M @ M.T / n + np.diag(rng.uniform(0.5, 3, n)); g0 = rng.uniform(0.5, 1.5, n) * rng.choice([-1, 1], n) * 30
        H0 *= sc; g0 *= sc
        ctl = self
        class CB:
            def __init__(s): s.x = x.copy(); s.kept = None; s.log = []; s.ups = 0
            def error(s): return land.error([s.x])
            def gradient(s): return g0.copy()
            def hessian(s): return H0.copy()
            def update(s, dx): s.x = s.x + np.asarray(dx).ravel(); s.ups += 1
            def keep(s): s.kept = s.x.copy()
            def restore(s): s.x = s.kept.copy()
        land = Landscape(lambda u, v: np.abs(u[0] - v[0]).max() <= 1e-9 * (1 + np.abs(v[0]).max()), sc * float(rng.choice([5000.0, 0.0, -700.0, 1e5])))
        cb = CB()
        tol = sc * 10.0 ** rng.randint(-3, -1)
        o = mx.OptX(cb, tol, sc * rng.choice(LAM))
        pts, err = [cb.x.copy()], [land.error([cb.x])]
        for call in calls:
            m = call[0]['method']
            its = [r for r in call if r['op'] == 'iter']; stop = call[-1]
            lam0 = (1 if m == 'ellip' else sc) * damping(rng, its)
            queue, log = list(its), []
            def pending():
                if not queue: land.surprise += 1; return err[-1] + sc
                it = queue.pop(0); lam = lam0 * 2.0 ** it['e']
                H = H0.copy()
                if m == 'spher': H += lam * np.eye(n)
                if m == 'ellip': H += lam * np.diag(np.diag(H0))
                dx = -np.linalg.solve(H, g0)
                pred = -dx @ g0 - 0.5 * dx @ H @ dx
                e = self.script(land, it, err[it['from']], pred, tol)
                log.append((it, dx)); err.append(e); return e
            land.pending, land.surprise = pending, 0
            base = len(land.pts); ups = cb.ups
            num = {'newton': 0, 'spher': 1, 'ellip': 2}[m]
            if call[0]['limit'] == 100 and m == 'newton': ret = o.solve_default(0)
            else: ret = o.solve(num, call[0]['limit'], lam0)
            seen = [p[0] for p, _ in land.pts[base:]]
            for j, (it, dx) in enumerate(log):
                if j >= len(seen): break
                exp = pts[it['from']] + dx
                if not self.true('schedule', np.abs(seen[j] - exp).max() <= 1e-8 * (1 + np.abs(exp).max()), '%s step %d (start damping %g, exponent %d): %s instead of %s' % (m, it['prop'], lam0, it['e'], seen[j], exp)): return
                pts.append(seen[j])
            if not self.true('limit', len(seen) == stop['iters'] and land.surprise == 0 and not queue and cb.ups - ups == stop['iters'],
                             '%s: %d steps instead of %d (%s, limit %d): %s' % (m, len(seen), stop['iters'], stop['why'], call[0]['limit'], [self.outs[r['o'] - 1] for r in its])): return
            self.true('count', ret == stop['iters'], '%s returned %d iterations instead of %d (%s)' % (m, ret, stop['iters'], stop['why']))
            if not self.true('undo', np.abs(cb.x - pts[stop['pos']]).max() <= 1e-12 * (1 + np.abs(cb.x).max()), '%s: final state is not point %d' % (m, stop['pos'])): return
            if m != 'newton': self.true('never worse', land.error([cb.x]) <= err[call[0]['pos']] + 1e-12 * (sc + max(abs(e) for e in err)), 'the error grew')
            if self.bad: return
