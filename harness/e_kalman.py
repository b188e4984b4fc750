"""C20-C24: Gaussian log-densities, Kalman steps and quadratic statistics, both implementations."""
import numpy as np
from engine.cases import add, info, label

KAL = {'pure': 'pyparticleest.utils.kalman', 'ext': 'pyparticleest.utils.ckalman'}
MLC = {'pure': 'pyparticleest.utils.mlnlg_compute', 'ext': 'pyparticleest.utils.cmlnlg_compute'}


def flat(h, x):
    """values of a scalar or an array of any shape"""
    if isinstance(x, np.ndarray):
        return x.reshape(-1)
    return h.mkarr([x], (1,))


def val(h, x, what):
    """the single number in x"""
    v = flat(h, x)
    h.same(len(v), 1, '%s returns one number' % what)
    return v[0]


def dot(*a):
    r = a[0]
    for x in a[1:]:
        r = r.dot(x)
    return r


def lognorm(h, err, S):
    """log N(err; 0, S)"""
    e = err.reshape((-1, 1))
    n = len(e)
    q = dot(e.T, h.inv(S), e)[0, 0]
    return -(n * h.log(2 * h.pi()) + h.log(h.det(S)) + q) * h.f(1, 2)


def snapshot(h, **arrs):
    return arrs, {k: v.copy() for k, v in arrs.items()}


def unchanged(h, snap):
    a, b = snap
    for k in a:
        h.eq(a[k], b[k], 'argument %s is left alone' % k)


# ------------------------------------------------------------------ C20
def c20(h):
    K = h.mod(KAL[h.p['impl']])
    n, N = h.p['n'], h.p['N']
    S = h.spd('S', n)
    e = h.vec('e', N, n)
    want = [lognorm(h, e[i], S) for i in range(N)]
    up, lo = h.cho(S), h.cho(S, lower=True)
    sn = snapshot(h, S=S, e=e, up=up[0], lo=lo[0])
    for i in range(N):
        for nm, v in (('column', e[i].reshape((n, 1))), ('row', e[i])):
            h.eq(val(h, K.lognormpdf(v, S), 'lognormpdf'), want[i], 'lognormpdf of a %s vector' % nm)
            h.eq(val(h, K.lognormpdf_cho(v, up), 'lognormpdf_cho'), want[i], 'lognormpdf_cho of a %s vector' % nm)
            h.eq(val(h, K.lognormpdf_cho(v, lo), 'lognormpdf_cho'), want[i], 'lognormpdf_cho with a lower factor')
    if h.p['impl'] == 'pure' or h.p.get('vec', True):
        r = K.lognormpdf_cho_vec(e, up)
        h.same(np.shape(r), (N,), 'one value per error')
        h.eq(r, h.mkarr(want, (N,)), 'lognormpdf_cho_vec')
        h.eq(K.lognormpdf_cho_vec(e, lo), h.mkarr(want, (N,)), 'lognormpdf_cho_vec with a lower factor')
    unchanged(h, sn)


def c20_vec(h):
    K = h.mod(KAL[h.p['impl']])
    n, N = h.p['n'], h.p['N']
    S = h.spdn('S', N, n)
    e = h.vec('e', N, n)
    sn = snapshot(h, S=S, e=e)
    want = h.mkarr([lognorm(h, e[i], S[i]) for i in range(N)], (N,))
    r = K.lognormpdf_vec(e, S)
    h.same(np.shape(r), (N,), 'one value per error')
    h.eq(r, want, 'lognormpdf_vec')
    h.eq(flat(h, K.lognormpdf_vec(e.reshape((N, n, 1)), [S[i] for i in range(N)])), want, 'lognormpdf_vec of column vectors')
    unchanged(h, sn)


def c20_scalar(h):
    K = h.mod(KAL[h.p['impl']])
    N = h.p['N']
    S = h.spd('S', 1)
    e = h.vec('e', N, 1)
    sn = snapshot(h, S=S, e=e)
    want = h.mkarr([lognorm(h, e[i], S) for i in range(N)], (N,))
    for v in (e, e[:, 0]):
        r = K.lognormpdf_scalar(v, S)
        h.same(np.shape(r), (N,), 'one value per error')
        h.eq(r, want, 'lognormpdf_scalar')
    unchanged(h, sn)


info('C20', 'dimension <= 3, up to 3 errors; every error and every positive definite covariance; pure Python and Cython source; upper and lower Cholesky factors',
     ['Cython source is executed as Python with its argument types checked; the concrete runs use the compiled extension'])
for impl in ('pure', 'ext'):
    for n, N in [(1, 2), (2, 2), (3, 1)]:
        add('C20', 'density-n%d-N%d' % (n, N), c20, dict(n=n, N=N, impl=impl), (impl,))
    for n, N in [(1, 3), (2, 2), (3, 1)]:
        add('C20', 'perparticle-n%d-N%d' % (n, N), c20_vec, dict(n=n, N=N, impl=impl), (impl,))
    add('C20', 'scalar', c20_scalar, dict(N=3, impl=impl), (impl,))
    add('C20', 'density-n3-N2', c20, dict(n=3, N=2, impl=impl), (impl,), tier='thorough')
    add('C20', 'perparticle-n3-N2', c20_vec, dict(n=3, N=2, impl=impl), (impl,), tier='thorough')


# ------------------------------------------------------------------ C21
def system(h, lz, ly):
    return (h.vec('A', lz, lz), h.vec('f', lz, 1), h.spd('Q', lz), h.vec('C', ly, lz), h.vec('h', ly, 1), h.spd('R', ly))


def c21_predict(h):
    K = h.mod(KAL[h.p['impl']])
    lz = h.p['lz']
    A, f, Q, C, hk, R = system(h, lz, 1)
    z, P = h.vec('z', lz, 1), h.spd('P', lz)
    wz, wP = A.dot(z) + f, dot(A, P, A.T) + Q
    w0 = A.dot(z)
    sn = snapshot(h, A=A, f=f, Q=Q, z=z, P=P)
    kf = K.KalmanFilter(lz, A=A, Q=Q)
    for what, (a, b), m in [('predict_full', kf.predict_full(z, P, A, f, Q), wz), ('predict with the stored dynamics', kf.predict(z, P), w0),
                            ('predict after set_dynamics', (kf.set_dynamics(f_k=f), kf.predict(z, P))[1], wz),
                            ('predict of a smoother', K.KalmanSmoother(lz, A, C, Q, R, f, hk).predict(z, P), wz)]:
        h.eq(a, m, '%s: mean' % what)
        h.eq(b, wP, '%s: covariance' % what)
    unchanged(h, sn)
    A2 = h.vec('B', lz, lz)
    kf.set_dynamics(A=A2)
    a, b = kf.predict(z, P)
    h.eq(a, A2.dot(z) + f, 'replaced dynamics are used')
    h.eq(b, dot(A2, P, A2.T) + Q, 'replaced dynamics are used')
    unchanged(h, sn)
    kf.set_dynamics(A=A)
    kf.z, kf.P = z.copy(), P.copy()
    kf.time_update()
    h.eq(kf.z, wz, 'time_update: mean')
    h.eq(kf.P, wP, 'time_update: covariance')
    z2, P2 = z.copy(), P.copy()
    a, b = kf.predict_full_inplace(z2, P2, A, f, Q)
    for what, m, c in [('returned', a, b), ('updated', z2, P2)]:
        h.eq(m, wz, 'predict_full_inplace: mean is %s' % what)
        h.eq(c, wP, 'predict_full_inplace: covariance is %s' % what)
    unchanged(h, sn)


def c21_measure(h):
    K = h.mod(KAL[h.p['impl']])
    lz, ly, wC, wh = h.p['lz'], h.p['ly'], h.p['C'], h.p['h']
    A, f, Q, C, hk, R = system(h, lz, ly)
    z, P, y = h.vec('z', lz, 1), h.spd('P', lz), h.vec('y', ly, 1)
    C0 = C if wC else h.zeros((ly, lz))
    h0 = hk if wh else h.zeros((ly, 1))
    S = h.pd(dot(C0, P, C0.T) + R)      # C P C' is positive semidefinite
    err = y - C0.dot(z) - h0
    G = dot(P, C0.T, h.inv(S))
    wz = z + G.dot(err)
    wP = P - dot(G, C0, P)
    wl = lognorm(h, err, S)
    sn = snapshot(h, C=C, hk=hk, R=R, y=y)
    kf = K.KalmanFilter(lz)
    Cc, hh = (C if wC else None), (hk if wh else None)
    stored = K.KalmanSmoother(lz)
    stored.set_dynamics(C=Cc, R=R, h_k=hh)
    calls = [('measure_full', lambda a, b: kf.measure_full(y, a, b, Cc, hh, R)), ('measure_full by keyword', lambda a, b: kf.measure_full(y=y, z=a, P=b, C=Cc, h_k=hh, R=R)),
             ('measure', lambda a, b: stored.measure(y, a, b))]
    if ly == 1:
        calls.append(('measure_full_scalar', lambda a, b: kf.measure_full_scalar(y, a, b, Cc, hh, R)))
    for what, fn in calls:
        a, b = z.copy(), P.copy()
        lp = fn(a, b)
        h.eq(val(h, lp, what), wl, '%s: log-likelihood of the innovation' % what)
        h.eq(a, wz, '%s: posterior mean' % what)
        h.eq(b, wP, '%s: posterior covariance' % what)
    h.eq(kf.measurement_diff(y, z, Cc, hh), err, 'difference to the predicted measurement')
    unchanged(h, sn)


def c21_info(h):
    """posterior in information form: the product of prior and likelihood"""
    K = h.mod(KAL[h.p['impl']])
    lz, ly = h.p['lz'], h.p['ly']
    A, f, Q, C, hk, R = system(h, lz, ly)
    z, P, y = h.vec('z', lz, 1), h.spd('P', lz), h.vec('y', ly, 1)
    h.pd(dot(C, P, C.T) + R)            # C P C' is positive semidefinite
    a, b = z.copy(), P.copy()
    K.KalmanFilter(lz).measure_full(y, a, b, C, hk, R)
    L = h.inv(P) + dot(C.T, h.inv(R), C)
    h.eq(L.dot(b), h.arr(np.eye(lz)), 'posterior precision is prior precision plus information of the measurement')
    h.eq(L.dot(a), h.inv(P).dot(z) + dot(C.T, h.inv(R), y - hk), 'posterior information vector')


info('C21', 'state dimension <= 2 (3 in thorough), measurement dimension <= 2, every matrix, mean, measurement and positive definite covariance, C and h present or absent; pure Python and Cython source',
     ['Cython source is executed as Python with its argument types checked; the concrete runs use the compiled extension'])
for impl in ('pure', 'ext'):
    for lz in (1, 2, 3):
        add('C21', 'predict-lz%d' % lz, c21_predict, dict(lz=lz, impl=impl), (impl,))
    for lz, ly in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)]:
        for C, hk in ((True, True), (True, False), (False, True), (False, False)):
            if (lz, ly) != (2, 1) and C != hk:
                continue
            add('C21', 'measure-lz%d-ly%d-C%d-h%d' % (lz, ly, C, hk), c21_measure, dict(lz=lz, ly=ly, C=C, h=hk, impl=impl), (impl,))
    for lz, ly in [(1, 2), (2, 1)]:
        add('C21', 'information-lz%d-ly%d' % (lz, ly), c21_info, dict(lz=lz, ly=ly, impl=impl), (impl,))
    add('C21', 'measure-lz3-ly2', c21_measure, dict(lz=3, ly=2, C=True, h=True, impl=impl), (impl,), tier='thorough', budget=250)
    add('C21', 'information-lz2-ly2', c21_info, dict(lz=2, ly=2, impl=impl), (impl,), tier='thorough')


# ------------------------------------------------------------------ C22
def c22(h):
    K = h.mod(KAL[h.p['impl']])
    lz = h.p['lz']
    A, f, Q = h.vec('A', lz, lz), h.vec('f', lz, 1), h.spd('Q', lz)
    z, P, zn, Pn = h.vec('z', lz, 1), h.spd('P', lz), h.vec('n', lz, 1), h.spd('N', lz)
    sn = snapshot(h, A=A, f=f, Q=Q, z=z, P=P, zn=zn, Pn=Pn)
    V = h.pd(dot(A, P, A.T) + Q)        # A P A' is positive semidefinite
    r = K.KalmanSmoother(lz).smooth(z, P, zn, Pn, A, f, Q)
    h.same(len(r), 3, 'mean, covariance and cross covariance are returned')
    # law of z given z+, averaged over the smoothed z+
    G = dot(P, A.T, h.inv(V))
    h.eq(r[0], z + G.dot(zn - A.dot(z) - f), 'smoothed mean')
    h.eq(r[1], P - dot(G, A, P) + dot(G, Pn, G.T), 'smoothed covariance')
    h.eq(r[2], G.dot(Pn), 'cross covariance of the state and its successor')
    unchanged(h, sn)


info('C22', 'state dimension <= 2 (3 in thorough), every dynamics, mean and positive definite covariance; pure Python and Cython source',
     ['Cython source is executed as Python with its argument types checked; the concrete runs use the compiled extension'])
for impl in ('pure', 'ext'):
    for lz in (1, 2):
        add('C22', 'smooth-lz%d' % lz, c22, dict(lz=lz, impl=impl), (impl,))
    add('C22', 'smooth-lz3', c22, dict(lz=3, impl=impl), (impl,), tier='thorough', budget=250)


# ------------------------------------------------------------------ C23
def c23_kalman(h):
    a, b = h.mod(KAL['pure']), h.mod(KAL['ext'])
    lz, ly = h.p['lz'], h.p['ly']
    A, f, Q, C, hk, R = system(h, lz, ly)
    z, P, y = h.vec('z', lz, 1), h.spd('P', lz), h.vec('y', ly, 1)
    zn, Pn = h.vec('n', lz, 1), h.spd('N', lz)
    e = h.vec('e', 2, ly)
    U = h.cho(R)
    h.pd(dot(C, P, C.T) + R)            # C P C' and A P A' are positive semidefinite
    h.pd(dot(A, P, A.T) + Q)

    def both(what, fn):
        out = []
        for K in (a, b):
            args = dict(z=z.copy(), P=P.copy(), y=y.copy(), e=e.copy())
            try:
                r = fn(K, args)
            except (TypeError, AttributeError, NameError, KeyError, IndexError, ValueError) as x:
                r = ('raises', type(x).__name__)
            r = list(r) if isinstance(r, (tuple, list)) else [r]
            out.append(r + [args[k] for k in sorted(args)])
        p, q = out
        h.same(len(p), len(q), '%s: same number of results' % what)
        for u, v in zip(p, q):
            if isinstance(u, str) or isinstance(v, str) or u is None or v is None:
                h.same(u if isinstance(u, str) else type(u).__name__, v if isinstance(v, str) else type(v).__name__, '%s: same outcome' % what)
            else:
                h.same(np.shape(u), np.shape(v), '%s: same shape' % what)
                h.eq(flat(h, u), flat(h, v), '%s: same values and updates' % what)
    both('lognormpdf', lambda K, g: K.lognormpdf(g['e'][0], R))
    both('lognormpdf_cho', lambda K, g: K.lognormpdf_cho(g['e'][0], U))
    both('lognormpdf_cho_vec', lambda K, g: K.lognormpdf_cho_vec(g['e'], U))
    both('lognormpdf_vec', lambda K, g: K.lognormpdf_vec(g['e'], [R, R]))
    both('lognormpdf_vec by keyword', lambda K, g: K.lognormpdf_vec(err=g['e'], Sl=[R, R]))
    if ly == 1:
        both('lognormpdf_scalar', lambda K, g: K.lognormpdf_scalar(g['e'], R))
        both('measure_full_scalar', lambda K, g: K.KalmanFilter(lz).measure_full_scalar(g['y'], g['z'], g['P'], C, hk, R))
        both('measure_full_scalar without h', lambda K, g: K.KalmanFilter(lz).measure_full_scalar(y=g['y'], z=g['z'], P=g['P'], C=C, h_k=None, R=R))
        both('measure_full_scalar without C', lambda K, g: K.KalmanFilter(lz).measure_full_scalar(g['y'], g['z'], g['P'], None, hk, R))
    for kw in (dict(), dict(A=A), dict(A=A, f_k=f), dict(A=A, C=C, Q=Q, R=R, f_k=f, h_k=hk), dict(f_k=f, Q=Q)):
        def store(K, g):
            k = K.KalmanSmoother(lz=lz, **kw)
            k.set_dynamics(Q=Q)
            return [getattr(k, n) for n in ('A', 'C', 'Q', 'R', 'f_k', 'h_k')]
        both('stored dynamics', store)

    def tu(K, g):
        k = K.KalmanFilter(lz, A, C, Q, R, f, hk)
        k.z, k.P = g['z'], g['P']
        k.time_update()
        return k.z, k.P
    both('time_update', tu)
    both('predict', lambda K, g: K.KalmanFilter(lz, A, C, Q, R, f, hk).predict(g['z'], g['P']))
    both('predict_full', lambda K, g: K.KalmanFilter(lz).predict_full(z=g['z'], P=g['P'], A=A, f_k=f, Q=Q))
    both('predict_full_inplace', lambda K, g: K.KalmanFilter(lz).predict_full_inplace(g['z'], g['P'], A, f, Q))
    both('measurement_diff', lambda K, g: K.KalmanFilter(lz).measurement_diff(g['y'], g['z'], C))
    both('measurement_diff with h', lambda K, g: K.KalmanFilter(lz).measurement_diff(g['y'], g['z'], None, h_k=hk))
    both('measure', lambda K, g: K.KalmanFilter(lz, A, C, Q, R, f, hk).measure(g['y'], g['z'], g['P']))
    for Cx in (C, None):
        for hx in (hk, None):
            both('measure_full', lambda K, g: K.KalmanFilter(lz).measure_full(g['y'], g['z'], g['P'], C=Cx, h_k=hx, R=R))
    both('smooth', lambda K, g: K.KalmanSmoother(lz).smooth(g['z'], g['P'], zn, Pn, A, f, Q))


info('C23', 'dimensions <= 2, every value of the arguments; every public function and method of both modules', ['Cython source is executed as Python with its argument types checked; the concrete runs compare with the compiled extension'])
for lz, ly in [(1, 1), (2, 1), (2, 2)]:
    add('C23', 'kalman-lz%d-ly%d' % (lz, ly), c23_kalman, dict(lz=lz, ly=ly), ('ext',))


# ------------------------------------------------------------------ C24
def stats(h, N, lxi, lz):
    dim = lxi + lz
    return (h.vec('xn', N, dim, 1), h.vec('f', N, dim, 1), h.vec('A', N, dim, lz), h.vec('z', N, lz, 1), h.spdn('P', N, lz), h.spdn('Pn', N, lz), h.vec('M', N, lz, lz))


def expected_l2(h, lxi, perr, A, Pl, Pn, M):
    """covariance of [0; z+] - A z plus outer product of the mean"""
    dim, lz = A.shape
    B = h.zeros((dim, 2 * lz))         # (z, z+) -> [0; z+] - A z
    B[:, :lz] = -A
    for i in range(lz):
        B[lxi + i, lz + i] = 1
    J = h.zeros((2 * lz, 2 * lz))
    J[:lz, :lz] = Pl
    J[lz:, lz:] = Pn
    J[:lz, lz:] = M
    J[lz:, :lz] = M.T
    return dot(perr, perr.T) + dot(B, J, B.T)


def c24_l2(h):
    K = h.mod(MLC[h.p['impl']])
    N, lxi, lz = h.p['N'], h.p['lxi'], h.p['lz']
    dim = lxi + lz
    xn, f, A, z, P, Pn, M = stats(h, N, lxi, lz)
    sn = snapshot(h, xn=xn, f=f, A=A, z=z, P=P, Pn=Pn, M=M)
    perr = h.vec('junk', N, dim, 1)
    K.compute_pred_err(N, dim, xn, f, A, z, perr)
    for i in range(N):
        h.eq(perr[i], xn[i] - f[i] - A[i].dot(z[i]), 'prediction error')
    out = h.vec('junk2', N, dim, dim)
    K.compute_l2(N, lxi, dim, perr, Pn, A, P, M, out)
    for i in range(N):
        h.eq(out[i], expected_l2(h, lxi, perr[i], A[i], P[i], Pn[i], M[i]), 'expected outer product of the prediction error')
    unchanged(h, sn)


def c24_grad(h):
    K = h.mod(MLC[h.p['impl']])
    N, lxi, lz, L = h.p['N'], h.p['lxi'], h.p['lz'], h.p['L']
    dim = lxi + lz
    xn, f0, A0, z, P, Pn, M = stats(h, N, lxi, lz)
    fg = h.vec('df', N, L, dim, 1)
    Ag = h.vec('dA', N, L, dim, lz)
    th = h.vec('th', L)
    W = h.vec('w', N, dim, dim)

    def fA(t):
        f, A = f0.copy(), A0.copy()
        for j in range(L):
            f = f + fg[:, j] * t[j]
            A = A + Ag[:, j] * t[j]
        return f, A

    def value(t):
        f, A = fA(t)
        s = h.const(0)
        for i in range(N):
            l2 = expected_l2(h, lxi, xn[i] - f[i] - A[i].dot(z[i]), A[i], P[i], Pn[i], M[i])
            for k in range(dim):
                for l in range(dim):
                    s = s + W[i, k, l] * l2[k, l]
        return s
    _, g = h.grad(value, ['th[%d]' % j for j in range(L)])
    f, A = fA([th[j] for j in range(L)])
    perr = xn - f - h.mkarr([A[i].dot(z[i])[k, 0] for i in range(N) for k in range(dim)], (N, dim, 1))
    sn = snapshot(h, A=A, z=z, P=P, M=M, perr=perr, fg=fg, Ag=Ag)
    base = h.vec('o', N, L, dim, dim)
    out = base.copy()
    K.compute_l2_grad_f(N, L, dim, out, perr, fg, h.vec('junk', dim, dim))
    K.compute_l2_grad_A(N, L, dim, out, perr, lxi, Pn, z, P, M, A, Ag, h.vec('junk2', dim, dim), h.vec('junk3', dim, max(lz, 1)))
    for j in range(L):
        s = h.const(0)
        for i in range(N):
            for k in range(dim):
                for l in range(dim):
                    s = s + W[i, k, l] * (out[i, j, k, l] - base[i, j, k, l])
        h.eq(s, g[j], 'derivative of the expected outer product')
    unchanged(h, sn)


def c24_logprod(h):
    K = h.mod(MLC[h.p['impl']])
    n = h.p['n']
    A0, A1, B0, B1 = h.spd('A', n), h.zeros((n, n)), h.spd('B', n), h.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            A1[i, j] = A1[j, i] = h.real('dA%d%d' % (i, j))
            B1[i, j] = B1[j, i] = h.real('dB%d%d' % (i, j))

    def value(t):
        A, B = h.pd(A0 + A1 * t[0]), B0 + B1 * t[0]     # positive definite for small t
        iA = h.inv(A)
        return h.log(h.det(A)) + sum_diag(h, iA.dot(B))
    # derivative at theta = 0 through a shifted base point: A0, B0 are arbitrary
    g = h.grad0(value, 't')
    for lower in (False, True):
        U = h.cho(A0, lower=lower)
        sn = snapshot(h, U=U[0], A1=A1, B0=B0, B1=B1)
        h.eq(val(h, K.compute_logprod_derivative(U, A1, B0, B1), 'compute_logprod_derivative'), g, 'derivative of log det A + tr(inv(A) B)')
        unchanged(h, sn)


def sum_diag(h, X):
    s = h.const(0)
    for i in range(len(X)):
        s = s + X[i, i]
    return s


def c24_agree(h):
    """compiled and pure versions take the same arguments by keyword and give the same values"""
    a, b = h.mod(MLC['pure']), h.mod(MLC['ext'])
    N, lxi, lz, L = h.p['N'], h.p['lxi'], h.p['lz'], h.p['L']
    dim = lxi + lz
    xn, f, A, z, P, Pn, M = stats(h, N, lxi, lz)
    fg, Ag = h.vec('df', N, L, dim, 1), h.vec('dA', N, L, dim, lz)
    p0, o0, g0 = h.vec('junk', N, dim, 1), h.vec('junk2', N, dim, dim), h.vec('junk3', N, L, dim, dim)
    S = h.spd('S', dim)
    U = h.cho(S)
    res = []
    for K in (a, b):
        p, o, g1, g2 = p0.copy(), o0.copy(), g0.copy(), g0.copy()
        K.compute_pred_err(N=N, dim=dim, xn=xn, f=f, A=A, zl=z, out=p)
        K.compute_l2(N=N, lxi=lxi, dim=dim, perr=p, Pn=Pn, A=A, Pl=P, M=M, out=o)
        K.compute_l2_grad_f(N=N, lenp=L, dim=dim, out=g1, perr=p, f_grad=fg, tmp=h.zeros((dim, dim)))
        K.compute_l2_grad_A(N=N, lenp=L, dim=dim, out=g2, perr=p, lxi=lxi, Pn=Pn, zl=z, Pl=P, M=M, A=A, A_grad=Ag, tmp1=h.zeros((dim, dim)), tmp2=h.zeros((dim, lz)))
        res.append([p, o, g1, g2, flat(h, K.compute_logprod_derivative(Alup=U, dA=o[0], B=o[-1], dB=g1[0, 0]))])
    for nm, u, v in zip(('compute_pred_err', 'compute_l2', 'compute_l2_grad_f', 'compute_l2_grad_A', 'compute_logprod_derivative'), *res):
        h.eq(u, v, '%s: compiled and pure Python version agree' % nm)


info('C24', 'nonlinear dimension <= 2, linear dimension <= 2, up to 2 particles and 2 parameters, every matrix; pure Python and Cython source',
     ['Cython source is executed as Python with its argument types checked; the concrete runs use the compiled extension'])
for impl in ('pure', 'ext'):
    for N, lxi, lz in [(2, 1, 1), (1, 0, 2), (1, 1, 2), (2, 2, 1)]:
        add('C24', 'l2-N%d-lxi%d-lz%d' % (N, lxi, lz), c24_l2, dict(N=N, lxi=lxi, lz=lz, impl=impl), (impl,))
    for N, lxi, lz, L in [(1, 1, 1, 2), (2, 1, 1, 1), (1, 0, 2, 1), (1, 2, 1, 1)]:
        add('C24', 'grad-N%d-lxi%d-lz%d-L%d' % (N, lxi, lz, L), c24_grad, dict(N=N, lxi=lxi, lz=lz, L=L, impl=impl), (impl,))
    add('C24', 'grad-N2-lxi1-lz2-L2', c24_grad, dict(N=2, lxi=1, lz=2, L=2, impl=impl), (impl,), tier='thorough')
    for n in (1, 2):
        add('C24', 'logprod-n%d' % n, c24_logprod, dict(n=n, impl=impl), (impl,))
    add('C24', 'logprod-n3', c24_logprod, dict(n=3, impl=impl), (impl,), tier='thorough')
for N, lxi, lz, L in [(2, 1, 1, 2), (1, 0, 2, 1), (1, 1, 2, 1)]:
    add('C24', 'agree-N%d-lxi%d-lz%d-L%d' % (N, lxi, lz, L), c24_agree, dict(N=N, lxi=lxi, lz=lz, L=L), ('ext',))


# ------------------------------------------------------------------ the same arrays and objects again, with other values
def c20_again(h):
    K = h.mod(KAL[h.p['impl']])
    n, N = h.p['n'], 2
    S, e = h.spdn('S', N, n), h.vec('e', N, n)
    up = [h.np.array(h.cho(S[i])[0]) for i in range(N)]
    U = up[0].copy()
    for rnd in range(2):
        if rnd:
            S[...], e[...] = h.spdn('T', N, n), h.vec('g', N, n)
            U[...] = h.cho(S[0])[0]
        want = [lognorm(h, e[i], S[0]) for i in range(N)]
        h.eq(val(h, K.lognormpdf(e[0], S[0]), 'lognormpdf'), want[0], 'lognormpdf')
        h.eq(val(h, K.lognormpdf_cho(e[0], (U, False)), 'lognormpdf_cho'), want[0], 'lognormpdf_cho')
        h.eq(K.lognormpdf_cho_vec(e, (U, False)), h.mkarr(want, (N,)), 'lognormpdf_cho_vec')
        h.eq(K.lognormpdf_vec(e, S), h.mkarr([lognorm(h, e[i], S[i]) for i in range(N)], (N,)), 'lognormpdf_vec')
        if n == 1:
            h.eq(K.lognormpdf_scalar(e, S[0]), h.mkarr(want, (N,)), 'lognormpdf_scalar')


def c21_again(h):
    K = h.mod(KAL[h.p['impl']])
    lz, ly = h.p['lz'], h.p['ly']
    A, f, Q, C, hk, R = system(h, lz, ly)
    kf = K.KalmanSmoother(lz, A, C, Q, R, f, hk)
    z, P, y = h.vec('z', lz, 1), h.spd('P', lz), h.vec('y', ly, 1)
    for rnd in range(3):
        if rnd == 1:        # written into the arrays that were given
            A[...], f[...], Q[...], C[...], hk[...], R[...] = h.vec('A1', lz, lz), h.vec('f1', lz, 1), h.spd('Q1', lz), h.vec('C1', ly, lz), h.vec('h1', ly, 1), h.spd('R1', ly)
            z[...], P[...], y[...] = h.vec('z1', lz, 1), h.spd('P1', lz), h.vec('y1', ly, 1)
        elif rnd == 2:      # replaced
            A, f, Q, C, hk, R = h.vec('A2', lz, lz), h.vec('f2', lz, 1), h.spd('Q2', lz), h.vec('C2', ly, lz), h.vec('h2', ly, 1), h.spd('R2', ly)
        S = h.pd(dot(C, P, C.T) + R)
        err = y - C.dot(z) - hk
        G = dot(P, C.T, h.inv(S))
        wl, wz, wP = lognorm(h, err, S), z + G.dot(err), P - dot(G, C, P)
        for what in ('given', 'stored'):
            if what == 'stored':
                if rnd == 1:
                    continue    # whether the object keeps the arrays it got or copies is its own business
                if rnd == 2:
                    kf.set_dynamics(A=A, C=C, Q=Q, R=R, f_k=f, h_k=hk)
            a, b = z.copy(), P.copy()
            lp = kf.measure_full(y, a, b, C, hk, R) if what == 'given' else kf.measure(y, a, b)
            h.eq(val(h, lp, 'measure'), wl, '%s matrices: log-likelihood of the innovation' % what)
            h.eq(a, wz, '%s matrices: posterior mean' % what)
            h.eq(b, wP, '%s matrices: posterior covariance' % what)
            a, b = kf.predict_full(z, P, A, f, Q) if what == 'given' else kf.predict(z, P)
            h.eq(a, A.dot(z) + f, '%s matrices: predicted mean' % what)
            h.eq(b, dot(A, P, A.T) + Q, '%s matrices: predicted covariance' % what)


def c22_again(h):
    K = h.mod(KAL[h.p['impl']])
    lz = h.p['lz']
    A, f, Q = h.vec('A', lz, lz), h.vec('f', lz, 1), h.spd('Q', lz)
    z, P, zn, Pn = h.vec('z', lz, 1), h.spd('P', lz), h.vec('n', lz, 1), h.spd('N', lz)
    ks = K.KalmanSmoother(lz)
    for rnd in range(2):
        if rnd:
            A[...], f[...], Q[...] = h.vec('A1', lz, lz), h.vec('f1', lz, 1), h.spd('Q1', lz)
            z[...], P[...], zn[...], Pn[...] = h.vec('z1', lz, 1), h.spd('P1', lz), h.vec('n1', lz, 1), h.spd('N1', lz)
        V = h.pd(dot(A, P, A.T) + Q)
        r = ks.smooth(z, P, zn, Pn, A, f, Q)
        G = dot(P, A.T, h.inv(V))
        h.eq(r[0], z + G.dot(zn - A.dot(z) - f), 'smoothed mean')
        h.eq(r[1], P - dot(G, A, P) + dot(G, Pn, G.T), 'smoothed covariance')
        h.eq(r[2], G.dot(Pn), 'cross covariance of the state and its successor')


for impl in ('pure', 'ext'):
    for n in (1, 2):
        add('C20', 'again-n%d' % n, c20_again, dict(n=n, impl=impl), (impl,))
        add('C22', 'again-lz%d' % n, c22_again, dict(lz=n, impl=impl), (impl,))
        add('C21', 'again-lz%d' % n, c21_again, dict(lz=n, ly=1, impl=impl), (impl,))
