"""Numeric form of the factor definitions of FactorModel, for whole graphs (validated against the exact model by check P07/P08).
S: id -> state as returned by the node. a: id of origin/pose, b: id of target/landmark. Returns residual, Jacobian with blocks in id order."""
import numpy as np, math
from drv import wrap, ln_se3, inv_se3, adj_se3, hat, exp_se3

DIM = {'P2': 3, 'P3': 6, 'L2': 2, 'L3': 3, 'PL': 4}
def hw(a):
    a = wrap(a)
    return a
def evaluate(kind, obs, a, b, S):
    X = np.asarray(S[a], float); Y = np.asarray(S[b], float) if b is not None else None
    rev = b is not None and b < a
    if kind == 'F1P2':
        r = X[:, 0] - obs; r[2] = hw(r[2]); return r, np.eye(3)
    if kind == 'F2P2':
        x, y = X[:, 0], Y[:, 0]
        c, s = math.cos(x[2]), math.sin(x[2]); d = y[:2] - x[:2]
        l = np.array([c*d[0] + s*d[1], -s*d[0] + c*d[1]])
        r = np.r_[l - obs[:2], hw(y[2] - x[2] - obs[2])]
        Jo = np.array([[-c, -s, l[1]], [s, -c, -l[0]], [0, 0, -1.]]); Jt = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.]])
        return r, np.c_[Jt, Jo] if rev else np.c_[Jo, Jt]
    if kind == 'ODO':
        x, y = X[:, 0], Y[:, 0]; th = x[2] + obs[0]
        p = np.array([x[0] + obs[1]*math.cos(th), x[1] + obs[1]*math.sin(th), th + obs[2]])
        r = p - y; r[2] = hw(r[2])
        return r, np.c_[np.array([[1, 0, -obs[1]*math.sin(th)], [0, 1, obs[1]*math.cos(th)], [0, 0, 1.]]), -np.eye(3)]
    if kind == 'F1L2':
        x, y = X[:, 0], Y[:, 0]; d = y - x[:2]; q = d @ d; s = math.sqrt(q)
        if q < 1e-6: r, Jx, Jl = np.zeros(2), np.eye(2, 3), np.eye(2)
        else:
            r = np.array([s - obs[0], hw(math.atan2(d[1], d[0]) - x[2] - obs[1])])
            Jx = np.array([[-d[0]/s, -d[1]/s, 0], [d[1]/q, -d[0]/q, -1]]); Jl = np.array([[d[0]/s, d[1]/s], [-d[1]/q, d[0]/q]])
        return r, np.c_[Jl, Jx] if rev else np.c_[Jx, Jl]
    if kind in ('F1P3', 'F1P3s'):
        return ln_se3(X @ inv_se3(obs)), np.eye(6)
    if kind in ('F2P3', 'F2P3s'):
        Tr = Y @ inv_se3(obs) @ inv_se3(X) if rev else X @ obs @ inv_se3(Y)
        return ln_se3(Tr), np.c_[np.eye(6), -adj_se3(Tr)]
    if kind == 'F1L3':
        Ri = X[:3, :3].T; l = Y[:, 0]
        r = Ri @ (l - X[:3, 3]) - obs; Jx = Ri @ np.c_[hat(l), -np.eye(3)]
        return r, np.c_[Ri, Jx] if rev else np.c_[Jx, Ri]
    if kind == 'F1PL':
        o = np.r_[obs[:3] / np.linalg.norm(obs[:3]), obs[3]]; pi = Y[:, 0]
        l = X.T @ pi; r = l + o if l[3] < 0 else l - o
        G = np.zeros((4, 6)); G[:3, :3] = hat(pi[:3]); G[3, 3:] = pi[:3]
        return r, np.c_[X.T, X.T @ G] if rev else np.c_[X.T @ G, X.T]
    if kind == 'PT2PL':
        p = X[:3, :3] @ obs[:, 0] + X[:3, 3]; n = obs[:, 2]
        return np.array([n @ (p - obs[:, 1])]), (n @ np.c_[-hat(p), np.eye(3)]).reshape(1, 6)
    raise KeyError(kind)

def initial(kind, obs, X):
    """value given to the target when initialisation is requested"""
    X = np.asarray(X, float)
    if kind == 'F2P2':
        x = X[:, 0]; c, s = math.cos(x[2]), math.sin(x[2])
        return np.array([x[0] + c*obs[0] - s*obs[1], x[1] + s*obs[0] + c*obs[1], hw(x[2] + obs[2])]).reshape(-1, 1)
    if kind == 'ODO':
        x = X[:, 0]; th = x[2] + obs[0]
        return np.array([x[0] + obs[1]*math.cos(th), x[1] + obs[1]*math.sin(th), hw(th + obs[2])]).reshape(-1, 1)
    if kind == 'F1L2':
        x = X[:, 0]; return np.array([x[0] + obs[0]*math.cos(x[2] + obs[1]), x[1] + obs[0]*math.sin(x[2] + obs[1])]).reshape(-1, 1)
    if kind in ('F2P3', 'F2P3s'): return X @ obs
    if kind == 'F1L3': return (X[:3, :3] @ obs + X[:3, 3]).reshape(-1, 1)
    raise KeyError(kind)

def boxplus(kind, x, d):
    x = np.asarray(x, float); d = np.asarray(d, float).ravel()
    if kind == 'P3': return exp_se3(d) @ x
    y = x + d.reshape(-1, 1)
    if kind == 'P2': y[2, 0] = hw(y[2, 0])
    if kind == 'PL': y[:3] /= np.linalg.norm(y[:3])
    return y

def boxminus(kind, y, x):
    """tangent difference, to compare states"""
    if kind == 'P3': return ln_se3(np.asarray(y) @ inv_se3(np.asarray(x)))
    d = (np.asarray(y, float) - np.asarray(x, float)).ravel()
    if kind == 'P2': d[2] = hw(d[2])
    return d

def weight(robust, u):
    if robust == 1: return 1.0 if u < 1 else 1.0 / u
    if robust == 2: return 1 / (1 + u*u)
    if robust == 3: return 1 / (1 + u*u) ** 2
    if robust == 4: return 1.0 if u < 1 else 0.0
    return 1.0
