"""C28-C30: the linear time-varying Gaussian model."""
import numpy as np
from engine.cases import add, info, label
from harness.e_kalman import flat, val, dot, lognorm, snapshot, unchanged, expected_l2, sum_diag

LTV = 'pyparticleest.models.ltv'
ALL = ('A', 'f', 'Q', 'C', 'h', 'R')
FILTER = 'pyparticleest.filter'
EXT = ['when the Cython configuration is encoded, its source is executed as Python with argument types checked']


class Sys(object):
    """matrices of a linear system over steps; every matrix is constant, changes with time ('tv'), or is constant but given anew at even steps ('some')"""

    def __init__(self, h, lz, ly, T, tv=(), wh=True, wf=True, some=()):
        self.h, self.lz, self.ly, self.T, self.tv, self.some = h, lz, ly, T, set(tv), set(some)
        self.u, self.t, self.y = h.vec('u', T), h.vec('t', T), h.vec('y', T, ly, 1)
        kinds = dict(A=(lz, lz), f=(lz, 1), Q=lz, C=(ly, lz), h=(ly, 1), R=ly)
        self.tab, self.con = {}, {}
        for k, sh in kinds.items():
            def new(nm):
                return h.spd(nm, sh) if isinstance(sh, int) else h.vec(nm, *sh)
            if k == 'h' and not wh or k == 'f' and not wf:
                self.tab[k] = None
            elif k in self.tv:
                self.tab[k] = [new('%s_%d' % (k, i)) for i in range(T)]
            else:
                self.con[k] = new(k)
                self.tab[k] = [new('%s_%d' % (k, i)) if k in self.some and i % 2 == 0 else self.con[k] for i in range(T)]
        self.z0, self.P0 = h.vec('z0', lz, 1), h.spd('P0', lz)
        self.warm = h.p.get('warm')
        if self.warm:       # the model starts out with other parameter values
            def old(v, nm):
                return None if v is None else (h.spd(nm, v.shape[0]) if nm[1] in 'QRP' else h.vec(nm, *v.shape))
            self.true = (self.tab, self.con, self.z0, self.P0)
            self.z0, self.P0 = old(self.z0, 'oz'), old(self.P0, 'oP')
            self.con = {k: old(v, 'o' + k) for k, v in self.con.items()}
            self.tab = {k: v and [self.con[k] if not self.given(k, i) else old(x, 'o%s_%d' % (k, i)) for i, x in enumerate(v)] for k, v in self.tab.items()}
            self.buf = {}

    def settle(self, m):
        """the model gets its parameter values: as new arrays, or written into the old ones"""
        o = (self.tab, self.con, self.z0, self.P0)
        self.tab, self.con, self.z0, self.P0 = self.true
        if self.warm == 'inplace':
            for k, v in self.con.items():
                o[1][k][...] = v
            m.P0[...] = self.P0
            m.z0[...] = self.z0
        else:
            m.kf.set_dynamics(**{{'f': 'f_k', 'h': 'h_k'}.get(k, k): v.copy() for k, v in self.con.items()})
            m.z0, m.P0 = self.z0.copy(), self.P0.copy()

    def hand(self, k, i):
        if self.warm == 'inplace':      # the user fills one array again and again
            if k not in self.buf:
                self.buf[k] = self.tab[k][i].copy()
            self.buf[k][...] = self.tab[k][i]
            return self.buf[k]
        return self.tab[k][i].copy()

    def at(self, k, i):
        h = self.h
        if self.tab[k] is None:
            return h.zeros((self.lz if k == 'f' else self.ly, 1))
        return self.tab[k][i]

    def given(self, k, i):
        return k in self.tv or k in self.some and i % 2 == 0

    def model(self, flat0=False):
        h, S = self.h, self
        con = {k: S.con.get(k) for k in S.tab}

        class M(h.mod(LTV).LTV):
            step = None

            def get_pred_dynamics(self, u, t):
                h.eq(u, S.u[self.step], 'dynamics are asked for the input of the step')
                h.eq(t, S.t[self.step], 'dynamics are asked for the time of the step')
                return tuple(S.hand(k, self.step) if S.given(k, self.step) else None for k in ('A', 'f', 'Q'))

            def get_meas_dynamics(self, y, t):
                h.eq(flat(h, y), flat(h, S.y[self.step]), 'measurement matrices are asked for the measurement of the step')
                h.eq(t, S.t[self.step], 'measurement matrices are asked for the time of the step')
                return (y.reshape((-1, 1)),) + tuple(S.hand(k, self.step) if S.given(k, self.step) else None for k in ('C', 'h', 'R'))
        z0 = S.z0.reshape((-1,)) if flat0 else S.z0
        return M(z0, S.P0, A=con['A'], C=con['C'], Q=con['Q'], R=con['R'], f=con['f'], h=con['h'], params=None)


def pack(h, zs, Ps, Ms=None):
    N, lz = len(zs), len(zs[0])
    out = []
    for i in range(N):
        out += list(flat(h, zs[i])) + list(flat(h, Ps[i])) + (list(flat(h, Ms[i])) if Ms is not None else [])
    return h.mkarr(out, (N, lz + lz * lz * (1 if Ms is None else 2)))


def mat(h, row, off, n, m):
    return h.mkarr([row[off + k] for k in range(n * m)], (n, m))


def c28(h):
    P = h.p
    lz, ly, N, T = P['lz'], P['ly'], P['N'], P.get('T', 2)
    S = Sys(h, lz, ly, T, P.get('tv', ()), P.get('wh', True), P.get('wf', True), P.get('some', ()))
    m = S.model(flat0=P.get('flat0', False))
    x = m.create_initial_estimate(N)
    h.same(np.shape(x), (N, lz + lz * lz), 'mean and covariance of every particle are stored')
    for i in range(N):
        h.eq(x[i, :lz], S.z0.reshape((-1,)), 'initial mean')
        h.eq(x[i, lz:], S.P0.reshape((-1,)), 'initial covariance')
    if S.warm:
        m.step = 0
        z, Pc = h.vec('w', N, lz, 1), h.spdn('W', N, lz)
        for i in range(N):
            h.pd(dot(S.at('C', 0), Pc[i], S.at('C', 0).T) + S.at('R', 0))
        m.measure(pack(h, z, Pc), S.y[0].copy(), S.t[0])
        m.update(pack(h, z, Pc), S.u[0], S.t[0], None)
        S.settle(m)
        x = m.create_initial_estimate(N)
        for i in range(N):
            h.eq(x[i, :lz], S.z0.reshape((-1,)), 'initial mean')
            h.eq(x[i, lz:], S.P0.reshape((-1,)), 'initial covariance')
    for k in range(T):
        m.step = k
        # the same model object keeps going, from arbitrary states
        z, Pc = h.vec('z%d' % k, N, lz, 1), h.spdn('P%d' % k, N, lz)
        x = pack(h, z, Pc)
        C, hk, R = S.at('C', k), S.at('h', k), S.at('R', k)
        Vs = [h.pd(dot(C, Pc[i], C.T) + R) for i in range(N)]   # C P C' is positive semidefinite
        ret = m.measure(x, S.y[k].copy(), S.t[k])
        h.same(np.shape(ret), (N,), 'one likelihood per particle')
        for i in range(N):
            V = Vs[i]
            e = S.y[k] - C.dot(z[i]) - hk
            G = dot(Pc[i], C.T, h.inv(V))
            h.eq(ret[i], lognorm(h, e, V), 'weight is the log-likelihood of the innovation')
            wz, wP = z[i] + G.dot(e), Pc[i] - dot(G, C, Pc[i])
            h.eq(x[i, :lz], wz.reshape((-1,)), 'posterior mean')
            h.eq(x[i, lz:], wP.reshape((-1,)), 'posterior covariance')
        h.same(np.shape(x), (N, lz + lz * lz), 'the particles keep their layout')
        z2, P2 = h.vec('a%d' % k, N, lz, 1), h.spdn('B%d' % k, N, lz)
        x = pack(h, z2, P2)
        h.true(m.sample_process_noise(x, S.u[k], S.t[k]) is None, 'no noise is sampled')
        r = m.update(x, S.u[k], S.t[k], None)
        A, f, Q = S.at('A', k), S.at('f', k), S.at('Q', k)
        for nm, q in (('returned', r), ('updated', x)):
            for i in range(N):
                h.eq(q[i, :lz], (A.dot(z2[i]) + f).reshape((-1,)), 'predicted mean is %s' % nm)
                h.eq(q[i, lz:], (dot(A, P2[i], A.T) + Q).reshape((-1,)), 'predicted covariance is %s' % nm)
        lp = m.logp_xnext(x, x[:1], S.u[k], S.t[k])
        h.same(np.shape(lp), (N,), 'one transition density per particle')
        h.eq(lp, h.zeros((N,)), 'all particles are equivalent')
    zl, Pl = m.get_states(x)
    h.same((len(zl), len(Pl)), (N, N), 'states of every particle')
    y = h.zeros(np.shape(x))
    m.set_states(y, zl, Pl)
    h.eq(y, x, 'states are packed as they are unpacked')


def c29(h):
    P = h.p
    lz, N, T, M = P['lz'], P['N'], P['T'], P['M']
    F = h.mod(FILTER)
    S = Sys(h, lz, 1, T, P.get('tv', ()), some=P.get('some', ()))
    m = S.model()
    k = P['k']
    z, Pc = h.vec('z', M, lz, 1), h.spdn('P', M, lz)
    part = pack(h, z, Pc)
    anc = np.array([h.choose(N, 'anc') for _ in range(M)], dtype=int)
    m.step = k
    y, u, t = [S.y[i] for i in range(T)], [S.u[i] for i in range(T)], [S.t[i] for i in range(T)]
    old = part.copy()
    if k == T - 1:
        r = m.sample_smooth(part=part, ptraj=None, anc=anc, future_trajs=None, find=None, ut=u, yt=y, tt=t, cur_ind=k)
        h.same(np.shape(r), (M, lz + 2 * lz * lz), 'mean, covariance and cross covariance of every trajectory')
        for j in range(M):
            h.eq(r[j, :lz], z[j].reshape((-1,)), 'the last step keeps its filtered mean')
            h.eq(r[j, lz:lz + lz * lz], Pc[j].reshape((-1,)), 'the last step keeps its filtered covariance')
        h.eq(part, old, 'the filter particles are left alone')
        return
    Mf = P['Mf']
    fut, zs, Ps = [], [], []
    for i in range(k + 1, T):
        a, b, c = h.vec('s%d' % i, Mf, lz, 1), h.spdn('S%d' % i, Mf, lz), h.vec('c%d' % i, Mf, lz, lz)
        zs.append(a)
        Ps.append(b)
        fut.append(F.TrajectoryStep(F.ParticleApproximation(pack(h, a, b, c)), np.arange(Mf)))
    find = np.array([h.choose(Mf, 'find') for _ in range(M)], dtype=int) if P['find'] == 'any' else np.arange(M)
    if S.warm:
        for j in range(M):
            h.pd(dot(S.at('A', k), Pc[j], S.at('A', k).T) + S.at('Q', k))
        m.sample_smooth(part=part.copy(), ptraj=None, anc=anc, future_trajs=fut, find=find, ut=u, yt=y, tt=t, cur_ind=k)
        S.settle(m)
    A, f, Q = S.at('A', k), S.at('f', k), S.at('Q', k)
    Vs = [h.pd(dot(A, Pc[j], A.T) + Q) for j in range(M)]       # A P A' is positive semidefinite
    if S.some:      # another step before, with matrices of its own
        m.step = 0
        h.pd(dot(S.at('A', 0), Pc[0], S.at('A', 0).T) + S.at('Q', 0))
        m.sample_smooth(part=part[:1].copy(), ptraj=None, anc=anc[:1], future_trajs=fut, find=np.zeros(1, dtype=int), ut=u, yt=y, tt=t, cur_ind=0)
        m.step = k
    r = m.sample_smooth(part=part, ptraj=None, anc=anc, future_trajs=fut, find=find, ut=u, yt=y, tt=t, cur_ind=k)
    h.same(np.shape(r), (M, lz + 2 * lz * lz), 'mean, covariance and cross covariance of every trajectory')
    n2 = lz * lz
    for j in range(M):
        V = Vs[j]
        G = dot(Pc[j], A.T, h.inv(V))
        zn, Pn = zs[0][find[j]], Ps[0][find[j]]
        h.eq(r[j, :lz], (z[j] + G.dot(zn - A.dot(z[j]) - f)).reshape((-1,)), 'smoothed mean')
        h.eq(r[j, lz:lz + n2], (Pc[j] - dot(G, A, Pc[j]) + dot(G, Pn, G.T)).reshape((-1,)), 'smoothed covariance')
        h.eq(r[j, lz + n2:], G.dot(Pn).reshape((-1,)), 'cross covariance with the next step')
    h.eq(part, old, 'the filter particles are left alone')


def c29_pipe(h):
    """filter and smoother classes on the model: moments equal those of the joint Gaussian given all data"""
    P = h.p
    lz, T, N, M = P['lz'], P['T'], P['N'], P['M']
    miss = P.get('miss', ()) if P['first'] else (0,) + P.get('miss', ())
    S = Sys(h, lz, 1, T, ALL if not P.get('some') else (), some=ALL if P.get('some') else ())

    class M_(h.mod(LTV).LTV):
        def measure(self, particles, y, t):     # the user's way of dealing with missing measurements
            if y is None:
                return h.zeros((len(particles),))
            return super(M_, self).measure(particles, y, t)

        def get_pred_dynamics(self, u, t):
            i = int(t)
            h.eq(u, S.u[i], 'input belongs to the step')
            return tuple(S.tab[k][i].copy() if S.given(k, i) else None for k in ('A', 'f', 'Q'))

        def get_meas_dynamics(self, y, t):
            i = int(t)
            return (y.reshape((-1, 1)),) + tuple(S.tab[k][i].copy() if S.given(k, i) else None for k in ('C', 'h', 'R'))
    m = M_(S.z0, S.P0, **S.con)
    sim = h.mod('pyparticleest.simulator')
    y = [None if i in miss else S.y[i] for i in range(T)][0 if P['first'] else 1:]
    s = sim.Simulator(m, u=[S.u[i] for i in range(T)], y=y)
    mu, cov = joint(h, S, T, lz)
    # covariances of innovations and predictions are positive definite
    Pc = S.P0
    for i in range(T):
        if i not in miss:
            C = S.at('C', i)
            V = h.pd(dot(C, Pc, C.T) + S.at('R', i))
            Pc = Pc - dot(Pc, C.T, h.inv(V), C, Pc)
        if i + 1 < T:
            Pc = h.pd(dot(S.at('A', i), Pc, S.at('A', i).T) + S.at('Q', i))
    s.simulate(N, M, res=0.0, smoother=P['smoother'], meas_first=P['first'])
    est = s.get_smoothed_estimates()
    h.same(np.shape(est)[:2], (T, M), 'one state per step and trajectory')
    n = T * lz
    obs = [i for i in range(T) if i not in miss]
    H = h.zeros((len(obs), n))
    yv, R = h.zeros((len(obs), 1)), h.zeros((len(obs), len(obs)))
    for a, i in enumerate(obs):
        H[a:a + 1, i * lz:(i + 1) * lz] = S.at('C', i)
        yv[a, 0] = S.y[i][0, 0] - S.at('h', i)[0, 0]
        R[a, a] = S.at('R', i)[0, 0]
    if obs:
        V = dot(H, cov, H.T) + R
        G = dot(cov, H.T, h.inv(V))
        mu2, cov2 = mu + G.dot(yv - H.dot(mu)), cov - dot(G, H, cov)
    else:
        mu2, cov2 = mu, cov
    for i in range(T):
        for j in range(M):
            r = est[i][j]
            h.eq(r[:lz], mu2[i * lz:(i + 1) * lz, 0], 'smoothed mean is the mean given all measurements')
            h.eq(r[lz:lz + lz * lz], cov2[i * lz:(i + 1) * lz, i * lz:(i + 1) * lz].reshape((-1,)), 'smoothed covariance is the covariance given all measurements')
            if i + 1 < T:
                h.eq(r[lz + lz * lz:], cov2[i * lz:(i + 1) * lz, (i + 1) * lz:(i + 2) * lz].reshape((-1,)), 'cross covariance is the one given all measurements')


def joint(h, S, T, lz):
    """prior mean and covariance of all states"""
    n = T * lz
    mu, cov = h.zeros((n, 1)), h.zeros((n, n))
    mu[:lz] = S.z0
    cov[:lz, :lz] = S.P0
    for i in range(1, T):
        A, f, Q = S.at('A', i - 1), S.at('f', i - 1), S.at('Q', i - 1)
        a, b = (i - 1) * lz, i * lz
        mu[b:b + lz] = A.dot(mu[a:b]) + f
        cov[b:b + lz, :b] = A.dot(cov[a:b, :b])
        cov[:b, b:b + lz] = cov[b:b + lz, :b].T
        cov[b:b + lz, b:b + lz] = dot(A, cov[a:b, a:b], A.T) + Q
    return mu, cov


for kw in [dict(lz=1, ly=1, N=1), dict(lz=2, ly=1, N=2), dict(lz=1, ly=2, N=2), dict(lz=2, ly=2, N=1), dict(lz=2, ly=1, N=1, tv=('A', 'f', 'Q', 'C', 'h', 'R')),
           dict(lz=1, ly=1, N=2, T=3, tv=('A', 'f', 'Q', 'C', 'h', 'R'), flat0=True), dict(lz=2, ly=1, N=1, wh=False, wf=False), dict(lz=1, ly=1, N=2, tv=('C',), wh=False, T=3),
           dict(lz=1, ly=1, N=1, tv=('A',)), dict(lz=1, ly=1, N=1, tv=('f',)), dict(lz=1, ly=1, N=1, tv=('Q',)), dict(lz=1, ly=1, N=1, tv=('h',)), dict(lz=1, ly=1, N=1, tv=('R',)), dict(lz=1, ly=1, N=1, tv=('C',)),
           dict(lz=1, ly=2, N=1, tv=('A', 'R')), dict(lz=2, ly=1, N=2, tv=('f', 'h', 'Q'), flat0=True)]:
    add('C28', label('step', kw), c28, kw, ('pure', 'ext'))
for kw in [dict(lz=1, ly=1, N=2, some=ALL), dict(lz=2, ly=1, N=1, some=('A', 'R')), dict(lz=1, ly=1, N=1, some=('f', 'C'), tv=('h',)), dict(lz=1, ly=1, N=1, some=('h', 'Q'))]:
    add('C28', label('sometimes', dict(kw, some=''.join(kw['some']))), c28, kw, ('pure', 'ext'))
for kw in [dict(lz=3, ly=1, N=1, tv=('A', 'C')), dict(lz=2, ly=2, N=2, tv=('A', 'f', 'Q', 'C', 'h', 'R'), T=3)]:
    add('C28', label('step', kw), c28, kw, ('pure', 'ext'), tier='thorough')
info('C28', 'state dimension <= 2 (3 in thorough), measurement dimension <= 2, up to 2 particles; every matrix constant or changing with time, with or without f and h; every mean, covariance, input and measurement; one model object over 2-3 steps, each from arbitrary states',
     ['measurements are columns, as the matrices of the model require'] + EXT)
for kw in [dict(lz=1, N=2, M=2, Mf=2, T=3, k=0, find='any'), dict(lz=2, N=2, M=2, Mf=2, T=3, k=1, find='all'), dict(lz=1, N=2, M=3, Mf=2, T=4, k=1, find='any', tv=('A', 'f', 'Q')),
           dict(lz=2, N=1, M=2, Mf=2, T=3, k=1, find='any', tv=('A', 'f', 'Q')), dict(lz=1, N=2, M=2, Mf=2, T=3, k=2, find='all', tv=('Q',)), dict(lz=1, N=1, M=2, Mf=2, T=3, k=1, find='all', tv=('f',)), dict(lz=1, N=1, M=2, Mf=2, T=3, k=1, find='all', tv=('A',)), dict(lz=1, N=1, M=2, Mf=2, T=3, k=1, find='all', tv=('Q',)), dict(lz=2, N=2, M=2, Mf=2, T=1, k=0, find='all')]:
    add('C29', label('step', kw), c29, kw, ('pure', 'ext'))
for kw in [dict(lz=1, T=2, N=1, M=1, smoother='full', first=True), dict(lz=1, T=2, N=1, M=1, smoother='full', first=False), dict(lz=1, T=2, N=1, M=2, smoother='ancestor', first=True),
           dict(lz=1, T=2, N=2, M=1, smoother='full', first=True, miss=(0,)), dict(lz=2, T=2, N=1, M=1, smoother='full', first=True, miss=(0,)), dict(lz=1, T=3, N=1, M=1, smoother='full', first=True, miss=(1,)),
           dict(lz=1, T=3, N=1, M=1, smoother='full', first=True, miss=(0, 1)),
           dict(lz=1, T=3, N=1, M=1, smoother='full', first=True), dict(lz=2, T=2, N=1, M=1, smoother='full', first=True), dict(lz=1, T=4, N=1, M=1, smoother='full', first=True, miss=(1, 2))]:
    add('C29', label('run', kw), c29_pipe, kw)
add('C29', 'run-some', c29_pipe, dict(lz=1, T=3, N=1, M=1, smoother='full', first=True, some=True))
for kw in [dict(lz=1, N=2, M=2, Mf=2, T=3, k=1, find='any', some=('A', 'f', 'Q')), dict(lz=2, N=1, M=1, Mf=1, T=3, k=1, find='all', some=('Q',))]:
    add('C29', label('sometimes', dict(kw, some=''.join(kw['some']))), c29, kw)
for kw in [dict(lz=1, T=4, N=1, M=1, smoother='full', first=True), dict(lz=2, T=3, N=1, M=1, smoother='full', first=True, miss=(0, 1)), dict(lz=1, T=3, N=2, M=2, smoother='full', first=True)]:
    add('C29', label('run', kw), c29_pipe, kw, tier='thorough', budget=600)
info('C29', 'single steps: state dimension <= 2, up to 3 trajectories over up to 4 steps, any matching future trajectory; whole runs of filter and smoother: scalar state over up to 4 steps, two states over 2 steps, with missing measurements; every time-varying matrix, mean, covariance and measurement',
     ['covariances of predictions and innovations are positive definite (sums of a positive definite and a positive semidefinite matrix)'] + EXT)


# ------------------------------------------------------------------ C30
def consts(h, ds, what):
    """the differences to the expected log-density do not depend on anything"""
    for d in ds[1:]:
        h.eq(d, ds[0], what)


def gauss(h, S, L2):
    """E log N with second moment L2 of the residual"""
    n = len(S)
    return -(n * h.log(2 * h.pi()) + h.log(h.det(S)) + sum_diag(h, h.inv(S).dot(L2))) * h.f(1, 2)


class Sm(object):
    """smoothed moments of N trajectories over two steps"""

    def __init__(self, h, nm, N, lz):
        self.z, self.P, self.c = h.vec('z' + nm, N, lz, 1), h.spdn('P' + nm, N, lz), h.vec('c' + nm, N, lz, lz)
        self.part = pack(h, self.z, self.P, self.c)


def c30_value(h):
    P = h.p
    lz, ly, N = P['lz'], P['ly'], P['N']
    S = Sys(h, lz, ly, 2, P.get('tv', ()), P.get('wh', True), some=P.get('some', ()))
    m = S.model()
    if S.warm:
        a, b = Sm(h, 'a0', N, lz), Sm(h, 'b0', N, lz)
        m.step = 0
        m.eval_logp_x0(a.part, S.t[0])
        m.eval_logp_xnext(a.part, b.part, S.u[0], S.t[0])
        m.eval_logp_y(a.part, S.y[0].copy(), S.t[0])
        S.settle(m)
    m2 = h.mod(LTV).LTV(S.z0.reshape((-1,)), S.P0)      # the densities of a second model have the same offset
    a, b = Sm(h, 'a', N, lz), Sm(h, 'b', N, lz)
    dx, dn, dy = [], [], []
    for k in range(2):
        m.step = k
        p, q = a.part.copy(), b.part.copy()
        r = m.eval_logp_x0(p, S.t[k])
        h.same(np.shape(r), (N,), 'one initial term per trajectory')
        for i in range(N):
            e = a.z[i] - S.z0
            dx.append(r[i] - gauss(h, S.P0, e.dot(e.T) + a.P[i]))
        r = m.eval_logp_xnext(p, q, S.u[k], S.t[k])
        h.same(np.shape(r), (N,), 'one transition term per trajectory')
        A, f, Q = S.at('A', k), S.at('f', k), S.at('Q', k)
        for i in range(N):
            dn.append(r[i] - gauss(h, Q, expected_l2(h, 0, b.z[i] - A.dot(a.z[i]) - f, A, a.P[i], b.P[i], a.c[i])))
        r = m.eval_logp_y(p, S.y[k].copy(), S.t[k])
        h.same(np.shape(r), (N,), 'one measurement term per trajectory')
        C, hk, R = S.at('C', k), S.at('h', k), S.at('R', k)
        for i in range(N):
            e = S.y[k] - C.dot(a.z[i]) - hk
            dy.append(r[i] - gauss(h, R, e.dot(e.T) + dot(C, a.P[i], C.T)))
        h.eq(p, a.part, 'the trajectories are left alone')
        h.eq(q, b.part, 'the trajectories are left alone')
    z0, P0 = h.vec('y0', lz), h.spd('Y0', lz)
    o = h.mod(LTV).LTV(z0, P0)
    e = a.z[0] - z0.reshape((-1, 1))
    dx.append(o.eval_logp_x0(a.part, S.t[0])[0] - gauss(h, P0, e.dot(e.T) + a.P[0]))
    consts(h, dx, 'initial term is the expected log-density, up to a constant')
    consts(h, dn, 'transition term is the expected log-density, up to a constant')
    consts(h, dy, 'measurement term is the expected log-density, up to a constant')


def sym2(h, x):
    return x + x.T


def c30_grad(h):
    P = h.p
    lz, ly, N, L = P['lz'], P['ly'], P['N'], P['L']
    dep = P['dep']
    S = Sys(h, lz, ly, 2, P.get('tv', ()), some=P.get('some', ()))
    K = 1 if S.some else 0
    shapes = dict(A=(lz, lz), f=(lz, 1), Q=(lz, lz), C=(ly, lz), h=(ly, 1), R=(ly, ly), z=(lz, 1), P=(lz, lz))
    g = {}
    for k, sh in shapes.items():
        if k in dep:
            x = h.vec('d' + k, L, *sh)
            g[k] = h.mkarr([v for j in range(L) for v in flat(h, x[j] + x[j].T if k in 'QRP' else x[j])], (L,) + sh)
        else:
            g[k] = None

    class M(type(S.model())):
        def get_pred_dynamics_grad(self, u, t):
            h.eq(u, S.u[self.step], 'gradients are asked for the input of the step')
            h.eq(t, S.t[self.step], 'gradients are asked for the time of the step')
            if P.get('default0'):
                return super(M, self).get_pred_dynamics_grad(u, t)
            return g['A'], g['f'], g['Q']

        def get_meas_dynamics_grad(self, y, t):
            h.eq(flat(h, y), flat(h, S.y[self.step]), 'gradients are asked for the measurement of the step')
            h.eq(t, S.t[self.step], 'gradients are asked for the time of the step')
            if P.get('default0'):
                return super(M, self).get_meas_dynamics_grad(y, t)
            return g['C'], g['h'], g['R']

        def get_initial_grad(self):
            if P.get('default0'):
                return super(M, self).get_initial_grad()
            return g['z'], g['P']
    con = {k: S.con.get(k) for k in S.tab}
    m = M(S.z0, S.P0, A=con['A'], C=con['C'], Q=con['Q'], R=con['R'], f=con['f'], h=con['h'], params=h.vec('th', L))
    m.step = 0
    a, b = Sm(h, 'a', N, lz), Sm(h, 'b', N, lz)
    p, q = a.part.copy(), b.part.copy()
    if S.warm:
        m.step = K
        m.eval_logp_x0_val_grad(p, S.t[K])
        m.eval_logp_xnext_val_grad(p, q, S.u[K], S.t[K])
        m.eval_logp_y_val_grad(p, S.y[K].copy(), S.t[K])
        S.settle(m)
        m.step = 0
    base = dict(A=S.at('A', K), f=S.at('f', K), Q=S.at('Q', K), C=S.at('C', K), h=S.at('h', K), R=S.at('R', K), z=S.z0, P=S.P0)

    def at(t, j):
        X = {k: (v + g[k][j] * t if g[k] is not None else v) for k, v in base.items()}
        for k in 'QRP':                         # positive definite for small t
            h.pd(X[k])
        return X

    def x0(X):
        s = h.const(0)
        for i in range(N):
            e = a.z[i] - X['z']
            s = s + gauss(h, X['P'], e.dot(e.T) + a.P[i])
        return s

    def xn(X):
        s = h.const(0)
        for i in range(N):
            s = s + gauss(h, X['Q'], expected_l2(h, 0, b.z[i] - X['A'].dot(a.z[i]) - X['f'], X['A'], a.P[i], b.P[i], a.c[i]))
        return s

    def ym(X):
        s = h.const(0)
        for i in range(N):
            e = S.y[K] - X['C'].dot(a.z[i]) - X['h']
            s = s + gauss(h, X['R'], e.dot(e.T) + dot(X['C'], a.P[i], X['C'].T))
        return s
    if K:       # another step before, with matrices of its own
        m.eval_logp_xnext_val_grad(p.copy(), q.copy(), S.u[0], S.t[0])
        m.eval_logp_y_val_grad(p.copy(), S.y[0].copy(), S.t[0])
        m.step = K
    for what, res, ref, fn in [('initial', lambda: m.eval_logp_x0_val_grad(p, S.t[K]), lambda: m.eval_logp_x0(p, S.t[K]), x0),
                               ('transition', lambda: m.eval_logp_xnext_val_grad(p, q, S.u[K], S.t[K]), lambda: m.eval_logp_xnext(p, q, S.u[K], S.t[K]), xn),
                               ('measurement', lambda: m.eval_logp_y_val_grad(p, S.y[K].copy(), S.t[K]), lambda: m.eval_logp_y(p, S.y[K].copy(), S.t[K]), ym)]:
        r = res()
        h.same(len(r), 2, 'value and gradient')
        h.eq(total(h, r[0]), total(h, ref()), '%s term: value agrees with the value-only method' % what)
        h.same(np.shape(r[1]), (L,), '%s term: one derivative per parameter' % what)
        for j in range(L):
            h.eq(r[1][j], h.grad0(lambda t: fn(at(t[0], j)), 's'), '%s term: gradient is the derivative of the value' % what)
        h.eq(p, a.part, 'the trajectories are left alone')
        h.eq(q, b.part, 'the trajectories are left alone')


def total(h, v):
    s = h.const(0)
    for x in flat(h, v):
        s = s + x
    return s


info('C30', 'dimensions <= 2, up to 2 trajectories, up to 2 parameters; every matrix (affine in the parameters), smoothed mean, covariance and cross covariance; each subset of parameter dependent matrices listed in the cases, others None',
     ['terms are compared up to an additive constant that depends on nothing but the dimensions', 'the gradient is of the sum over the trajectories'] + EXT)
for kw in [dict(lz=1, ly=1, N=2), dict(lz=2, ly=1, N=1), dict(lz=1, ly=2, N=1, tv=('A', 'f', 'Q', 'C', 'h', 'R')), dict(lz=2, ly=2, N=2, wh=False), dict(lz=2, ly=1, N=2, tv=('A', 'Q', 'R')),
           dict(lz=1, ly=1, N=1, tv=('A',)), dict(lz=1, ly=1, N=1, tv=('f',)), dict(lz=1, ly=1, N=1, tv=('Q',)), dict(lz=1, ly=1, N=1, tv=('h',)), dict(lz=1, ly=1, N=1, tv=('R',)), dict(lz=1, ly=1, N=1, tv=('C',))]:
    add('C30', label('value', kw), c30_value, kw, ('pure', 'ext') if kw['N'] == 2 else ('pure',))
TV = ('A', 'f', 'Q', 'C', 'h', 'R')
for w in ('new', 'inplace'):        # the model has been used with other parameter values before
    for tv in ((), TV):
        add('C28', label('reset-%s' % w, dict(tv=len(tv))), c28, dict(lz=1, ly=1, N=2, T=1, warm=w, tv=tv), ('pure', 'ext'))
        add('C29', label('reset-%s' % w, dict(tv=len(tv))), c29, dict(lz=1, N=2, M=2, Mf=2, T=2, k=0, find='all', warm=w, tv=tv), ('pure', 'ext'))
        add('C30', label('value-reset-%s' % w, dict(tv=len(tv))), c30_value, dict(lz=1, ly=1, N=2, warm=w, tv=tv))
        add('C30', label('gradient-reset-%s' % w, dict(tv=len(tv))), c30_grad, dict(lz=1, ly=1, N=2, L=1, dep='AfQChRzP', warm=w, tv=tv))
add('C30', 'value-sometimes', c30_value, dict(lz=1, ly=1, N=2, some=ALL))
add('C30', 'gradient-sometimes', c30_grad, dict(lz=1, ly=1, N=1, L=1, dep='AfQChRzP', some=ALL))
for kw in [dict(lz=1, ly=1, N=2, L=2, dep='AfQChRzP'), dict(lz=2, ly=1, N=1, L=1, dep='AfQChRzP'), dict(lz=1, ly=2, N=1, L=1, dep='AfQChRzP'), dict(lz=1, ly=1, N=2, L=1, dep=''), dict(lz=1, ly=1, N=2, L=1, dep='', default0=True),
           dict(lz=1, ly=1, N=2, L=1, dep='ACz'), dict(lz=1, ly=2, N=1, L=1, dep='fh'), dict(lz=1, ly=1, N=1, L=2, dep='QRP'), dict(lz=2, ly=2, N=1, L=1, dep='ACz'), dict(lz=2, ly=2, N=1, L=1, dep='fhz'), dict(lz=1, ly=1, N=1, L=1, dep='AfQChRzP', tv=('A', 'f', 'Q', 'C', 'h', 'R'))]:
    add('C30', label('gradient', kw), c30_grad, kw, ('pure', 'ext') if kw['N'] == 2 else ('pure',))
for kw in [dict(lz=2, ly=2, N=2, L=2, dep='AfQChRzP'), dict(lz=3, ly=1, N=1, L=1, dep='ACz')]:
    add('C30', label('gradient', kw), c30_grad, kw, tier='thorough')
