"""Replays SceneOps on mrob CreatePoints and PlaneRegistration; records every scene for SceneTrace."""
from drv import *
NOISE = [0.0, 1e-3, 0.02, 0.3]
class Driver(Base):
    def setup(self):
        self.g, self.r = self.mx.geometry, self.mx.registration
    def run(self, hist):
        self.scenes, self.regs, self.data = [], {}, []
        for k, h in enumerate(hist, 1):
            what = 'step %d %s' % (k, h['op'])
            if h['op'] == 'create': self.create(h['c'], what)
            elif h['op'] == 'register':
                reg = self.regs.setdefault(h['r'], self.r.PlaneRegistration())
                self.scenes[h['s'] - 1]['cp'].create_plane_registration(reg)
            elif h['op'] == 'truth':
                s = self.scenes[h['reg'][h['r'] - 1]['s'] - 1]
                self.regs[h['r']].initialize_last_pose_solution(s['cp'].get_ground_truth_last_pose())
            elif h['op'] == 'reset': self.regs[h['r']].reset_solution()
            if self.bad: return
            for r, x in enumerate(h['reg'], 1):
                if x['s']: self.look(self.regs[r], self.scenes[x['s'] - 1], x['at'], what + ': registration %d' % r)
                if self.bad: return
        # scenes are not disturbed by the registrations made of them
        for s in self.scenes:
            self.true('scene', self.points(s['cp'], s['c']) == s['X'], 'a scene changed after it was generated')
    def points(self, cp, c): return [[tuple(np.asarray(x).ravel()) for x in cp.get_point_cloud(t)] for t in range(c['t'])]
    def create(self, c, what):
        mx = self.mx; sd, bd = NOISE[c['noise'] - 1], NOISE[c['bias'] - 1]
        cp = self.r.CreatePoints(c['n'], c['p'], c['t'], sd, bd)
        X = self.points(cp, c)
        ids = [list(cp.get_point_plane_ids(t)) for t in range(c['t'])]
        T = [np.asarray(x.T()).copy() for x in mx.cp_ground_truth(cp)]
        pp = [np.asarray(x.T()).copy() for x in mx.cp_plane_poses(cp)]
        planes = mx.cp_planes(cp)
        self.true('truth', np.abs(T[0] - np.eye(4)).max() < 1e-15, what + ': the first pose is %s' % T[0])
        self.true('truth', len(T) == c['t'] and len(pp) == c['p'], what + ': %d poses and %d planes' % (len(T), len(pp)))
        for t in range(c['t']):
            self.close('truth', np.asarray(cp.get_trajectory(t).T()), T[t], 0, what + ': pose %d' % t)
        self.close('truth', np.asarray(cp.get_ground_truth_last_pose().T()), T[-1], 0, what + ': last pose')
        for M in T + pp: self.close('truth', M[:3, :3] @ M[:3, :3].T, np.eye(3), 1e-12, what + ': not a rotation')
        for t in range(c['t']):
            self.true('points', len(X[t]) == len(ids[t]), what + ': %d points and %d labels' % (len(X[t]), len(ids[t])))
            self.true('points', np.all(np.isfinite(np.array(X[t]))), what + ': points not finite')
        if self.bad: return
        # which fraction of the last pose is each pose
        frac = []; N = c['t'] - 1
        L = ln_se3(T[-1]); a = np.linalg.norm(L[:3])
        for t in range(c['t']):
            if N == 0: frac.append([0, 1]); continue
            E = [exp_se3(j / N * L) if j < N else T[-1] for j in range(N + 1)]
            d = [np.abs(T[t] - x).max() for x in E]
            j = int(np.argmin(d)); frac.append([j, N] if d[j] < 1e-9 / max(1e-3, math.pi - a) else [-1, N])
        # the planes each point lies on, from the fit of the labelled points of all poses
        W = [[T[t][:3, :3] @ np.array(x) + T[t][:3, 3] for x in X[t]] for t in range(c['t'])]
        surf = []
        for p in range(c['p']):
            P = [W[t][i] for t in range(c['t']) for i in range(len(W[t])) if ids[t][i] == p]
            if len(P) < 3: surf.append(None); continue
            m = np.mean(P, 0); u, sv, v = np.linalg.svd(np.array(P) - m); surf.append((m, v[2]))
        # with noise, planes are those the generator says it used
        tol = 1e-9 if sd == 0 else 12 * sd
        rec = dict(c, frac=frac, pts=[], ids=[int(x[0]) for x in planes], sizes=list(mx.cp_sizes(cp)),
                   stored=[[len(x[1][t]) for t in range(c['t'])] for x in planes])
        for t in range(c['t']):
            where = {}
            for x in planes:
                for j, y in enumerate(x[1][t]): where.setdefault(tuple(np.asarray(y).ravel()), []).append([int(x[0]), j])
            row = []
            for i, x in enumerate(X[t]):
                lies = []
                for p in range(c['p']):
                    if sd == 0:
                        if surf[p] is None or abs((W[t][i] - surf[p][0]) @ surf[p][1]) < tol: lies.append(p)
                    elif abs(pp[p][:3, 2] @ (W[t][i] - pp[p][:3, 3])) < tol: lies.append(p)
                row.append({'l': int(ids[t][i]), 'lies': lies, 'at': where.get(x, [])})
            rec['pts'].append(row)
        self.data.append(rec)
        self.scenes.append(dict(c=c, cp=cp, X=X, T=T, planes=planes, sd=sd))
        self.checks += c['n'] * c['t']
    def look(self, reg, s, at, what):
        c = s['c']; mx = self.mx
        self.true('registration', reg.get_number_poses() == c['t'] and mx.reg_number_planes(reg) == c['p'], what + ': sizes')
        self.true('registration', sorted(mx.reg_ids(reg)) == list(range(c['p'])), what + ': planes %s' % mx.reg_ids(reg))
        self.true('registration', mx.reg_points(reg) == c['n'] * c['t'], what + ': %d points' % mx.reg_points(reg))
        if self.bad: return
        tr = [np.asarray(reg.get_trajectory(t).T()) for t in range(c['t'])]
        for t in range(c['t']):
            self.true('registration', sorted(tuple(np.asarray(x).ravel()) for x in reg.get_point_cloud(t)) == sorted(s['X'][t]), what + ': points at time %d' % t)
            if at == 'identity': self.close('registration', tr[t], np.eye(4), 0, what + ': pose %d' % t)
            else: self.close('registration', tr[t], s['T'][t], 1e-8 / max(1e-4, math.pi - np.linalg.norm(ln_so3(s['T'][-1][:3, :3]))), what + ': pose %d is not the ground truth' % t)
        e = reg.get_error()
        E, sc = 0.0, 1.0
        for _, pl in s['planes']:
            Q = np.zeros((4, 4))
            for t in range(c['t']):
                if pl[t]: y = np.c_[np.array(pl[t]).reshape(-1, 3), np.ones(len(pl[t]))] @ tr[t].T; Q += y.T @ y
            E += np.linalg.eigvalsh(Q)[0]; sc += np.trace(Q)
        self.close('error', e, E, 1e-10 * sc, what + ': error')
        if at == 'truth' and s['sd'] == 0: self.close('error', e, 0, 1e-10 * sc, what + ': error at the ground truth')
