"""Records a damped solve of a real graph through a spy factor, and abstracts it to the alphabet of DampedTrace."""
import numpy as np, math, zlib, json
from drv import *
import fgref, graph
from graph import World, NODE, col
class Driver(Base):
    def run(self, hist):
        rng = np.random.RandomState((zlib.crc32(json.dumps(hist, sort_keys=True).encode()) + self.seed + 77) % 2**31)
        hist = [r for r in hist if r['op'] in ('node', 'factor')]
        w = World(rng, hist); mx = self.mx
        noise = rng.choice([0.05, 0.3, 1.0])
        g = mx.GraphX(); hs, fs = [], []; anchor = []
        for r in hist:
            if r['op'] == 'node':
                i = len(hs); k = r['kind']
                h = mx.node(k, fgref.boxplus(k, w.truth[i], rng.randn(fgref.DIM[k]) * (0 if r['anchor'] else noise)), int(r['anchor'])); hs.append(h); g.add_node(h); anchor.append(r['anchor'])
            else:
                f = r['f']; j = len(fs)
                g.add_factor(mx.factor(f['kind'], col(w.obs[j]), hs[f['a']], hs[f['b']], w.W[j], False, f['rob'])); fs.append(f)
        cols, n = {}, 0
        for i, k in enumerate(w.kind[:len(hs)]):
            if not anchor[i]: cols[i] = n; n += fgref.DIM[k]
        log = []
        spy = mx.MockFactor([hs[0]], np.zeros(1), np.zeros((1, fgref.DIM[w.kind[0]])), np.eye(1), lambda f: (log.append([h.state() for h in hs]), 0.0)[1], 0)
        g.add_factor(spy)
        lam0 = w.scale * 10.0 ** rng.uniform(-4, 2); tol = w.scale * 10.0 ** rng.uniform(-4, -1); limit = int(rng.choice([1, 2, 3, 5, 10, 20]))
        g.solve(True, limit, lam0, tol)
        final = [h.state() for h in hs]
        def system(S):
            L = np.zeros((n, n)); b = np.zeros(n); e = 0.0
            for j, f in enumerate(fs):
                st = {f['a']: S[f['a']], f['b']: S[f['b']]}
                r, J = fgref.evaluate(f['kind'], w.obs[j], f['a'], f['b'] if NODE[f['kind']][1] else None, st)
                q = r @ w.W[j] @ r; e += 0.5 * q
                W = fgref.weight(f['rob'], math.sqrt(q)) * w.W[j]
                A = np.zeros((len(r), n)); c = 0
                for i in ([f['a']] if not NODE[f['kind']][1] else sorted([f['a'], f['b']])):
                    d = fgref.DIM[w.kind[i]]
                    if i in cols: A[:, cols[i]:cols[i] + d] = J[:, c:c + d]
                    c += d
                L += A.T @ W @ A; b += A.T @ W @ r
            return L, b, e
        def same(x, y):
            for i, (u, v) in enumerate(zip(x, y)):
                d = u - v
                if w.kind[i] == 'P2': d[2, 0] = wrap(d[2, 0])
                if not np.abs(d).max() <= 1e-13 * (1 + np.abs(v).max()): return False
            return True
        seq = [log[0]]
        for s in log[1:]:
            if not all(np.isfinite(x).all() and np.abs(x).max() < 1e4 for x in s): return
            if not same(s, seq[-1]): seq.append(s)
        steps = []; k = 0; cur = seq[0]
        while k + 1 < len(seq):
            p = seq[k + 1]
            L, b, e0 = system(cur); _, _, e1 = system(p)
            back = k + 2 < len(seq) and same(seq[k + 2], cur) or k + 2 == len(seq) and same(final, cur)
            # step actually taken
            dx = np.zeros(n)
            for i, c in cols.items(): dx[c:c + fgref.DIM[w.kind[i]]] = fgref.boxminus(w.kind[i], cur[i], p[i]) if w.kind[i] not in ('P3', 'PL') else self.tangent(w.kind[i], cur[i], p[i])
            if np.linalg.cond(L + lam0 * 1e-3 * np.eye(n)) > 1e9: return
            plane = any(w.kind[i] in ('PL',) for i in cols)
            cand = []
            for ex in range(-40, 41):
                y = np.linalg.solve(L + lam0 * 2.0 ** ex * np.eye(n), b)
                z = y.copy()
                for i, c in cols.items():           # compare where the step is visible: what the update does to the state
                    d = fgref.DIM[w.kind[i]]; z[c:c + d] = self.tangent(w.kind[i], cur[i], fgref.boxplus(w.kind[i], cur[i], -y[c:c + d])) if w.kind[i] in ('P3', 'PL') else y[c:c + d]
                    if w.kind[i] == 'P2': z[c + 2] += 2 * math.pi * round((dx[c + 2] - z[c + 2]) / 2 / math.pi)
                cand.append((np.linalg.norm(z - dx), ex, y))
            best = min(cand)
            fit = [c for c in cand if c[0] <= 1e-7 * (1 + np.linalg.norm(dx)) + 1e-6 * np.linalg.norm(dx) + 10 * best[0]]
            if not self.true('step', best[0] <= 1e-5 * (1 + np.linalg.norm(dx)), 'no damping of the schedule explains step %d of a damped solve (distance %g)' % (len(steps) + 1, best[0])): return
            ex = best[1] if len(fit) == 1 else 999
            y = best[2]; lam = lam0 * 2.0 ** best[1]
            pred = y @ b - 0.5 * y @ (L + lam * np.eye(n)) @ y
            delta = e0 - e1; slack = 1e-9 * (w.scale + abs(e0)); q = delta / pred if pred > 0 else 0
            if abs(delta) < slack or abs(delta - tol) < slack + 1e-6 * tol or abs(q - 0.25) < 1e-3 or abs(q - 0.8) < 1e-3: return
            cls = 'worse' if delta < 0 else 'conv' if delta < tol else 'poor' if q < 0.25 else 'good' if q > 0.8 else 'fair'
            steps.append({'class': cls, 'e': ex, 'moved': not back})
            if back: k += 2 if k + 2 < len(seq) else 1
            else: k += 1; cur = p
        if not steps: return
        # a last step too short to be seen in the states is not in the recording: nothing can be said about where the solve stopped
        L, b, _ = system(final)
        if np.linalg.norm(np.linalg.solve(L + lam0 * 2.0 ** -40 * np.eye(n) if np.linalg.cond(L) > 1e12 else L, b)) < 1e-9: return
        self.data = {'limit': limit, 'steps': steps}
        self.checks += len(steps)
    def tangent(self, kind, x, y):
        if kind == 'P3': return -ln_se3(y @ inv_se3(x))
        return (x - y).ravel()
