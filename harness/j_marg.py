"""C34: backward statistics and future density of the marginalised mixed model."""
import numpy as np
from engine.cases import add, info, label
from harness.e_kalman import flat, dot
from harness.g_ltv import EXT
from harness.h_mlnlg import Mix, rows, FILTER

BASE = 'MixedNLGaussianMarginalizedInitialGaussian'


def eye(h, n):
    out = h.zeros((n, n))
    for i in range(n):
        out[i, i] = h.const(1)
    return out


class Marg(Mix):
    """mixed model whose conditional linear noise has known eigenvectors"""

    def __init__(self, h, N, lxi, lz, ly, T=1, part=(), none=('Qxiz',), rank=None, tsym=True):
        self.rank = rank
        Mix.__init__(self, h, N, lxi, lz, ly, T, part, none, tsym)

    def fill(self, key, new, as_=None):
        if key == 'Qc':
            pre = self.pre
            new = lambda nm: self.h.spd_svd(pre + nm, self.d['lz'], self.rank)
        Mix.fill(self, key, new, as_)

    def build(self):
        h, d = self.h, self.d
        return self.model(BASE, dict(xi0=h.vec('xi0', d['lxi']), z0=h.vec('z0', d['lz']), Pxi0=h.spd('Px', d['lxi']), Pz0=h.spd('Pz', d['lz'])))

    def cdyn(self, k, i, xn):
        """linear dynamics given the next nonlinear state"""
        G = self.at('Qxiz', k, i).T.dot(self.h.inv(self.at('Qxi', k, i)))
        e = xn.reshape((-1, 1)) - self.at('fxi', k, i)
        return self.at('Az', k, i) - G.dot(self.at('Axi', k, i)), self.at('fz', k, i) + G.dot(e), self.at('Qc', k, i)

    def back(self, k, i, xn, Om, La):
        """statistics of the linear state before the step, from those after it and the next nonlinear state"""
        h = self.h
        A, f, Q = self.cdyn(k, i, xn)
        I = eye(h, len(Q))
        h.pd(dot_det(h, I + Om.dot(Q)))
        K = h.inv(I + Om.dot(Q))
        W = K.dot(Om)
        X, R = self.at('Axi', k, i), h.inv(self.at('Qxi', k, i))
        e = xn.reshape((-1, 1)) - self.at('fxi', k, i)
        return dot(A.T, W, A) + dot(X.T, R, X), A.T.dot(K.dot(La) - W.dot(f)) + dot(X.T, R, e)

    def obs(self, k, i):
        h = self.h
        C, R = self.at('C', k, i), h.inv(self.at('R', k, i))
        return dot(C.T, R, C), dot(C.T, R, self.y[k] - self.at('h', k, i))

    def future(self, k, i, z, P, xn, Om, La):
        """log of the integral of the future over the linear states, without constants"""
        h, lxi = self.h, self.d['lxi']
        m, S = self.joint(k, i, z, P)
        Sxx = S[:lxi, :lxi]
        h.pd(Sxx)
        e = xn.reshape((-1, 1)) - m[:lxi]
        mz, V = self.cond(k, i, z, P, xn)
        I = eye(h, len(V))
        h.pd(dot_det(h, I + self.back(k, i, xn, Om, La)[0].dot(P)))
        M = I + V.dot(Om)
        h.pd(dot_det(h, M))
        r = La - Om.dot(mz)
        q = dot(e.T, h.inv(Sxx), e) - 2 * dot(La.T, mz) + dot(mz.T, Om, mz) - dot(r.T, h.inv(M), V, r)
        return -(h.log(h.det(Sxx)) + h.log(h.det(M)) + q[0, 0]) * h.f(1, 2)


def dot_det(h, M):
    """1 x 1 matrix holding the determinant of a product of positive semidefinite matrices plus one, which is positive"""
    return h.mkarr([h.det(M)], (1, 1))


def c34_future(h):
    P = h.p
    N, lxi, lz = P['N'], P['lxi'], P['lz']
    F = h.mod(FILTER)
    Mf, T, k = P.get('Mf', N), P.get('T', 2), P.get('k', 0)
    S = Marg(h, N, lxi, lz, 1, part=P.get('part', ()), none=P.get('none', ('Qxiz',)), rank=P.get('rq'))
    m = S.build()
    for _ in S.phases(m):
        xi, z = h.vec('xi', N, lxi), h.vec('z', N, lz, 1)
        Pl = [h.spd_svd('P%d' % i, lz, P.get('rp')) for i in range(N)]
        part = rows(h, xi, z, Pl)
        xn, La = h.vec('xn', Mf, lxi), h.vec('La', Mf, lz, 1)
        Om = [h.zeros((lz, lz)) if P.get('om') == 0 else (one(h, 'Om%d' % i, lz) if P.get('om') == 1 else h.spd('Om%d' % i, lz)) for i in range(Mf)]
        nx = rows(h, xn, Om, La)
        u, t, y = h.vec('uu', T), h.vec('tt', T), h.vec('yy', T)
        S.u, S.t, S.want = u[k:k + 1], t[k:k + 1], xi
        other = [h.vec('o%d' % i, Mf, lxi + lz * lz + lz) for i in range(k + 2, T)]
        fut = [F.TrajectoryStep(F.ParticleApproximation(q), np.arange(Mf)) for q in [nx] + other]
        find = np.array([h.choose(Mf, 'find') for _ in range(N)], dtype=int) if P.get('find') else np.arange(N) % Mf
        x = part.copy()
        ref = [S.future(0, i, z[i], Pl[i], xn[find[i]], Om[find[i]], La[find[i]]) for i in range(N)]
        r = m.logp_xnext_full(part=x, past_trajs=None, pind=None, future_trajs=fut, find=find, ut=u, yt=y, tt=t, cur_ind=k)
        h.same(np.shape(r), (N,), 'one density per particle')
        ds = [r[i] - ref[i] for i in range(N)]
        # and for other statistics and another future, with the same dimensions
        xn2, La2 = h.vec('xm', N, lxi), h.vec('Lb', N, lz, 1)
        Om2 = [h.zeros((lz, lz)) for i in range(N)]
        f2 = [F.TrajectoryStep(F.ParticleApproximation(rows(h, xn2, Om2, La2)), np.arange(N))]
        ref = [S.future(0, i, z[i], Pl[i], xn2[i], Om2[i], La2[i]) for i in range(N)]
        r2 = m.logp_xnext_full(part=x, past_trajs=None, pind=None, future_trajs=f2, find=np.arange(N), ut=u, yt=y, tt=t, cur_ind=k)
        ds += [r2[i] - ref[i] for i in range(N)]
        for d in ds[1:]:
            h.eq(d, ds[0], 'density of the future is the integral over the linear states, up to a constant')
        h.eq(x, part, 'the particles are left alone')
        h.eq(fut[0].pa.part, rows(h, xn, Om, La), 'the future trajectories are left alone')


def one(h, nm, n):
    """positive semidefinite of rank one"""
    v = h.vec(nm, n, 1)
    return v.dot(v.T)


def c34_stat(h):
    P = h.p
    M, lxi, lz, ly, T, k = P['M'], P['lxi'], P['lz'], P['ly'], P['T'], P['k']
    F = h.mod(FILTER)
    S = Marg(h, M, lxi, lz, ly, part=P.get('part', ()), none=P.get('none', ('Qxiz',)), rank=P.get('rq'))
    m = S.build()
    for _ in S.phases(m):
        xi, z, Pl = h.vec('xi', M, lxi), h.vec('z', M, lz, 1), h.spdn('P', M, lz)
        part = rows(h, xi, z, Pl)
        u, t = h.vec('uu', T), h.vec('tt', T)
        y = [h.vec('yy%d' % i, ly) for i in range(T)]
        S.u, S.t, S.want = u[k:k + 1], t[k:k + 1], xi
        S.y = [y[k].reshape((ly, 1))]
        yt = [q.copy() for q in y]
        if P.get('miss'):
            yt[k] = None
        x = part.copy()
        Mf = P.get('Mf', M)
        if k == T - 1:
            fut, find = None, None
            ref = [(h.zeros((lz, lz)), h.zeros((lz, 1))) for i in range(M)]
        else:
            xn, La = h.vec('xn', Mf, lxi), h.vec('La', Mf, lz, 1)
            Om = [h.zeros((lz, lz)) if P.get('om') == 0 else (one(h, 'Om%d' % i, lz) if P.get('om') == 1 else h.spd('Om%d' % i, lz)) for i in range(Mf)]
            nx = rows(h, xn, Om, La)
            fut = [F.TrajectoryStep(F.ParticleApproximation(q), np.arange(Mf)) for q in [nx] + [h.vec('o%d' % i, Mf, lxi + lz * lz + lz) for i in range(k + 2, T)]]
            find = np.array([h.choose(Mf, 'find') for _ in range(M)], dtype=int) if P.get('find') else np.arange(M) % Mf
            ref = [S.back(0, i, xn[find[i]], Om[find[i]], La[find[i]]) for i in range(M)]
        r = m.sample_smooth(part=x, ptraj=None, anc=None, future_trajs=fut, find=find, ut=u, yt=yt, tt=t, cur_ind=k)
        h.same(np.shape(r), (M, lxi + lz * lz + lz), 'nonlinear state, information matrix and vector')
        for i in range(M):
            O, L = ref[i]
            if not P.get('miss'):
                a, b = S.obs(0, i)
                O, L = O + a, L + b
            h.eq(r[i, :lxi], xi[i], 'nonlinear state is kept')
            h.eq(r[i, lxi:lxi + lz * lz], O.reshape((-1,)), 'information matrix of the future and of the measurement, if any')
            h.eq(r[i, lxi + lz * lz:], L.reshape((-1,)), 'information vector of the future and of the measurement, if any')
        h.eq(x, part, 'the filter particles are left alone')
        if fut is not None:
            h.eq(fut[0].pa.part, nx, 'the future trajectories are left alone')
        if not P.get('miss'):
            h.eq(yt[k], y[k], 'the measurement is left alone')


def c34_run(h):
    """weights of particles against a future built step by step, against the joint density of all future states and measurements"""
    P = h.p
    N, T, lz, miss = P['N'], P['T'], P['lz'], P.get('miss', ())
    lxi = ly = 1
    F = h.mod(FILTER)
    S = Marg(h, N, lxi, lz, ly, T=T, part=('Axi', 'fxi', 'Az', 'fz', 'Qxi', 'Qc', 'Qz', 'Qxiz', 'C', 'h', 'R'), none=P.get('none', ('Qxiz',)), tsym=False)
    m = S.build()
    xi0, z = h.vec('xi', N, lxi), h.vec('z', N, lz, 1)
    Pl = [h.spd_svd('P%d' % i, lz) for i in range(N)]
    xi = [xi0] + [h.vec('x%d' % k, 1, lxi) for k in range(1, T)]
    u, t = [S.u[k] for k in range(T)], list(range(T))
    y = [None if k in miss else S.y[k].reshape((-1,)).copy() for k in range(T)]
    check = S.check

    def chk(particles, tt, u=None, y=None, who=''):
        k = int(tt)
        n, S.N, S.want = S.N, len(xi[k]), xi[k]
        try:
            return check(particles, tt, u, y)
        finally:
            S.N = n
    S.check = chk
    O, L = h.zeros((lz, lz)), h.zeros((lz, 1))      # for the lemmas on determinants
    for k in range(T - 1, 0, -1):
        if k < T - 1:
            O, L = S.back(k, 0, xi[k + 1][0], O, L)
        if k not in miss:
            a, b = S.obs(k, 0)
            O, L = O + a, L + b
    for i in range(N):
        h.pd(dot_det(h, eye(h, lz) + S.back(0, i, xi[1][0], O, L)[0].dot(Pl[i])))
    fut = []
    for k in range(T - 1, 0, -1):
        p = rows(h, xi[k], h.vec('fz%d' % k, 1, lz), h.spdn('fP%d' % k, 1, lz))
        r = m.sample_smooth(part=p, ptraj=None, anc=None, future_trajs=fut or None, find=np.array([0]) if fut else None, ut=u, yt=y, tt=t, cur_ind=k)
        fut = [F.TrajectoryStep(F.ParticleApproximation(r), np.arange(1))] + fut
    x = rows(h, xi0, z, Pl)
    r = m.logp_xnext_full(part=x, past_trajs=None, pind=None, future_trajs=fut, find=np.zeros((N,), dtype=int), ut=u, yt=y, tt=t, cur_ind=0)
    ds = []
    for i in range(N):
        e, V = future_joint(h, S, i, z[i], Pl[i], xi, miss)
        h.pd(V)
        ds.append(r[i] + (h.log(h.det(V)) + dot(e.T, h.inv(V), e)[0, 0]) * h.f(1, 2))
    for d in ds[1:]:
        h.eq(d, ds[0], 'weights compare the joint density of all future nonlinear states and measurements given each particle')


def future_joint(h, S, i, z, P, xi, miss):
    """residual and covariance of (xi_1.., y_1..) given particle i at time 0; later steps follow the only future"""
    T, lz, lxi = S.T, S.d['lz'], S.d['lxi']
    # z_k = B_k s + c_k with s = (z_0, joint noise of every step, measurement noise)
    d = lz + lxi
    n = lz + (T - 1) * d
    cov = h.zeros((n, n))
    cov[:lz, :lz] = P
    B, c = h.zeros((lz, n)), h.zeros((lz, 1))
    for a in range(lz):
        B[a, a] = h.const(1)
    mu = h.zeros((n, 1))
    mu[:lz] = z
    G, off, dat, noise = [], [], [], []
    for k in range(T - 1):
        j = i if k == 0 else 0
        o = lz + k * d
        cov[o:o + d, o:o + d] = S.Q(k, j)
        E = h.zeros((d, n))
        for a in range(d):
            E[a, o + a] = h.const(1)
        A, f = S.A(k, j), S.f(k, j)
        J, q = A.dot(B) + E, A.dot(c) + f
        G.append(J[:lxi])
        off.append(q[:lxi])
        dat.append(xi[k + 1][0].reshape((lxi, 1)))
        noise.append(h.zeros((lxi, lxi)))
        B, c = J[lxi:], q[lxi:]
        if k + 1 not in miss:
            C = S.at('C', k + 1, 0)
            G.append(C.dot(B))
            off.append(C.dot(c) + S.at('h', k + 1, 0))
            dat.append(S.y[k + 1])
            noise.append(S.at('R', k + 1, 0))
    rowsn = sum(len(g) for g in G)
    H, e, R = h.zeros((rowsn, n)), h.zeros((rowsn, 1)), h.zeros((rowsn, rowsn))
    p = 0
    for g, o, w, v in zip(G, off, dat, noise):
        s = slice(p, p + len(g))
        H[s], e[s], R[s, s] = g, w - o, v
        p += len(g)
    return e - H.dot(mu), dot(H, cov, H.T) + R


PRED = ('Axi', 'fxi', 'Az', 'fz', 'Qxi', 'Qc', 'Qz', 'Qxiz')
for kw in [dict(N=2, lxi=1, lz=1), dict(N=2, lxi=2, lz=1), dict(N=1, lxi=1, lz=2), dict(N=2, lxi=1, lz=1, none=()), dict(N=2, lxi=1, lz=1, none=(), part=PRED, Mf=2, find=True, T=3, k=0), dict(N=1, lxi=2, lz=1, none=()), dict(N=2, lxi=1, lz=1, Mf=1, part=('Axi', 'fz')),
           dict(N=2, lxi=1, lz=1, rq=0), dict(N=2, lxi=1, lz=1, rp=0), dict(N=1, lxi=1, lz=2, rq=1), dict(N=1, lxi=1, lz=2, rp=1), dict(N=1, lxi=1, lz=2, om=1), dict(N=3, lxi=1, lz=1, Mf=2, find=True, T=3, k=1), dict(N=2, lxi=1, lz=1, none=('fxi', 'fz', 'Qxiz'))]:
    add('C34', label('future', kw), c34_future, kw, ('pure',))
for kw in [dict(M=2, lxi=1, lz=1, ly=1, T=3, k=1), dict(M=2, lxi=1, lz=1, ly=1, T=3, k=1, miss=True), dict(M=2, lxi=1, lz=1, ly=1, T=2, k=0, none=(), part=PRED + ('C', 'h', 'R'), find=True), dict(M=1, lxi=1, lz=2, ly=1, T=2, k=0), dict(M=1, lxi=2, lz=1, ly=1, T=2, k=0, none=()), dict(M=1, lxi=1, lz=1, ly=2, T=2, k=0),
           dict(M=2, lxi=1, lz=2, ly=1, T=2, k=1, part=('C', 'h', 'R')), dict(M=2, lxi=1, lz=2, ly=2, T=2, k=1), dict(M=2, lxi=2, lz=1, ly=1, T=2, k=1, miss=True), dict(M=1, lxi=1, lz=2, ly=1, T=3, k=0, rq=1, om=1, miss=True), dict(M=2, lxi=1, lz=1, ly=1, T=2, k=0, rq=0, Mf=3, find=True), dict(M=2, lxi=1, lz=1, ly=1, T=2, k=0, none=('Qxiz', 'h')), dict(M=2, lxi=1, lz=1, ly=1, T=2, k=0, none=('Qxiz', 'C'), part=('h',)),
           dict(M=2, lxi=1, lz=1, ly=1, T=2, k=0, none=('Qxiz', 'C')), dict(M=2, lxi=1, lz=1, ly=1, T=2, k=0, om=0)]:
    add('C34', label('statistics', kw), c34_stat, kw, ('pure',))
for kw in [dict(N=2, T=2, lz=1), dict(N=2, T=3, lz=1), dict(N=2, T=3, lz=1, miss=(1,)), dict(N=2, T=2, lz=1, none=()), dict(N=2, T=3, lz=1, miss=(2,), none=())]:
    add('C34', label('run', kw), c34_run, kw, ('pure',))
for kw in [dict(N=2, T=2, lz=2), dict(N=2, T=4, lz=1), dict(N=2, T=4, lz=1, miss=(2,), none=())]:
    add('C34', label('run', kw), c34_run, kw, tier='thorough', budget=800)
for kw in [dict(N=1, lxi=1, lz=2, none=()), dict(N=2, lxi=1, lz=2, part=('Axi', 'fz'))]:
    add('C34', label('future', kw), c34_future, kw, tier='thorough', budget=800)
for kw in [dict(M=1, lxi=2, lz=2, ly=2, T=2, k=0), dict(M=1, lxi=1, lz=2, ly=2, T=2, k=0, none=())]:
    add('C34', label('statistics', kw), c34_stat, kw, tier='thorough', budget=800)
info('C34', 'up to 3 particles, one or two nonlinear and linear states and measurements, future of any matching trajectories; every mean, covariance (also singular) and matrix, constant, per particle or absent, with and without correlated noise; weights against futures of up to two steps compared with the joint density',
     ['densities are compared up to a constant that depends on the dimensions only', 'numpy.linalg.svd is answered for matrices built from a known decomposition, which reaches every positive semidefinite matrix up to dimension two',
      'I + AB has a positive determinant for positive semidefinite A and B; sums of positive definite and semidefinite matrices are positive definite', 'the user model answers by arbitrary tables and the arguments it is asked for are checked'] + EXT)

# the model has been used with other parameter values before
for kw in [dict(), dict(none=()), dict(part=PRED + ('C', 'h', 'R')), dict(part=PRED + ('C', 'h', 'R'), none=())]:
    kw = dict(kw, N=1, lxi=1, lz=1, ly=1, warm=True)
    add('C34', label('future', kw), c34_future, kw, ('pure',))
    add('C34', label('statistics', kw), c34_stat, dict(kw, M=1, T=2, k=0), ('pure',))
