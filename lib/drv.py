"""Base of the replay drivers: comparison of what the code did with what the specification says."""
import numpy as np, math
class Base:
    def __init__(self, mx, opts, seed):
        self.mx, self.opts, self.seed = mx, opts, seed
        self.mism, self.checks, self.data = [], 0, None
        self.setup()
    bad = False
    def setup(self): pass
    def fail(self, key, what):
        """opts['keys']: the kinds of mismatch that are violations of the property under check; others only end the behaviour"""
        self.bad = True
        if self.opts.get('keys') and key not in self.opts['keys']: return
        self.mism.append({'key': key, 'what': str(what)[:1500]})
    def true(self, key, cond, what=''):
        self.checks += 1
        if not cond: self.fail(key, what)
        return bool(cond)
    def close(self, key, got, exp, tol, what=''):
        self.checks += 1
        got, exp = np.asarray(got, float), np.asarray(exp, float)
        if got.shape != exp.shape:
            # a column and a flat vector are the same thing
            if got.size == exp.size and got.squeeze().shape == exp.squeeze().shape:
                got, exp = got.squeeze(), exp.squeeze()
            else:
                self.fail(key, '%s: shape %s instead of %s' % (what, got.shape, exp.shape)); return False
        if got.size == 0: return True
        d = np.abs(got - exp)
        if not np.all(d <= tol):     # NaN fails
            self.fail(key, '%s: got %s expected %s (difference %g, tolerance %g)' % (what, np.array2string(got, precision=12, threshold=60), np.array2string(exp, precision=12, threshold=60), np.nanmax(d) if not np.all(np.isnan(d)) else float('nan'), np.max(tol)))
            return False
        return True

def rat(x):
    """nested rationals <<n, d>> -> floats. Only for values known to be (lists of) rationals"""
    if len(x) == 2 and isinstance(x[0], int): return x[0] / x[1]
    return np.array([rat(y) for y in x])

def wrap(a):
    return math.remainder(a, 2 * math.pi)

# ---- reference rigid body maths (independent of the code under test) ----
def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.]])

def rotq(q):
    a, b, c, d = (float(x) for x in q)
    n = a * a + b * b + c * c + d * d
    return np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)],
                     [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
                     [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]]) / n

def tmat(e):
    """exact element of the specification -> 4x4"""
    T = np.eye(4)
    T[:3, :3] = rotq(e['q'])
    T[:3, 3] = np.array(e['t'], float) / e['w']
    return T

def lnsym(L, sign=1):
    """evaluate the symbolic logarithm of the specification"""
    v = np.array(L['v'], float); t = np.array(L['t'], float) / L['w']
    n = np.linalg.norm(v)
    if n == 0: return np.r_[0, 0, 0, t]
    th = 2 * math.atan2(n, L['a'])
    h = th / 2
    k = 1 - h * (L['a'] / n)          # cot(th/2) = a/|v|
    if abs(h) < 1e-3: k = h*h/3 + h**4/45
    vt = np.array(L['vt'], float) / L['w'] / n
    vvt = np.array(L['vvt'], float) / L['w'] / n / n
    return np.r_[sign * th * v / n, t - sign * h * vt + k * vvt]

def sinc_series(x, f):
    return f

def exp_so3(w):
    w = np.asarray(w, float); o = np.linalg.norm(w); W = hat(w)
    if o < 1e-2:
        c1 = 1 - o**2/6 + o**4/120; c2 = 0.5 - o**2/24 + o**4/720
    else:
        c1 = math.sin(o)/o; c2 = 2*(math.sin(o/2)/o)**2
    return np.eye(3) + c1*W + c2*W@W

def exp_se3(x):
    x = np.asarray(x, float); w, v = x[:3], x[3:]
    o = np.linalg.norm(w); W = hat(w)
    if o < 2e-2:
        c2 = 0.5 - o**2/24 + o**4/720; c3 = 1/6 - o**2/120 + o**4/5040
    else:
        c2 = 2*(math.sin(o/2)/o)**2; c3 = (o - math.sin(o))/o**3
    T = np.eye(4); T[:3, :3] = exp_so3(w); T[:3, 3] = (np.eye(3) + c2*W + c3*W@W) @ v
    return T

def inv_se3(T):
    R = T[:3, :3].T
    M = np.eye(4); M[:3, :3] = R; M[:3, 3] = -R @ T[:3, 3]
    return M

def quat_of(R):
    """unit quaternion (w,x,y,z) of a rotation matrix, w >= 0, by the eigenvector of the largest eigenvalue"""
    m = R
    K = np.array([[m[0,0]+m[1,1]+m[2,2], m[2,1]-m[1,2], m[0,2]-m[2,0], m[1,0]-m[0,1]],
                  [0, m[0,0]-m[1,1]-m[2,2], m[1,0]+m[0,1], m[0,2]+m[2,0]],
                  [0, 0, m[1,1]-m[0,0]-m[2,2], m[2,1]+m[1,2]],
                  [0, 0, 0, m[2,2]-m[0,0]-m[1,1]]])
    K = (K + np.triu(K, 1).T) / 3
    w, V = np.linalg.eigh(K)
    q = V[:, -1]
    return q if q[0] >= 0 else -q

def ln_so3(R):
    q = quat_of(R)
    v = q[1:]; n = np.linalg.norm(v)
    if n < 1e-300: return np.zeros(3)
    return 2 * math.atan2(n, q[0]) * v / n

def ln_se3(T):
    w = ln_so3(T[:3, :3]); o = np.linalg.norm(w); W = hat(w)
    if o < 2e-2: k = 1/12 + o**2/720 + o**4/30240
    else: k = (1 - (o/2) / math.tan(o/2)) / o**2
    return np.r_[w, (np.eye(3) - 0.5*W + k*W@W) @ T[:3, 3]]

def adj_se3(T):
    A = np.zeros((6, 6)); R = T[:3, :3]
    A[:3, :3] = R; A[3:, 3:] = R; A[3:, :3] = hat(T[:3, 3]) @ R
    return A
