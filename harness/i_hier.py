"""C36: hierarchical models (linear states conditionally on independent nonlinear ones)."""
import numpy as np
from engine.cases import add, info, label
from harness.e_kalman import flat, dot, lognorm
from harness.f_nlg import block
from harness.g_ltv import EXT
from harness.h_mlnlg import Mix, Pts, rows, FILTER

HI = 'pyparticleest.models.hierarchial'


class Hier(Mix):
    """matrices of the linear part, and arbitrary values for everything the nonlinear part answers"""

    def __init__(self, h, N, lxi, lz, ly, T=1, part=(), none=(), tsym=True):
        Mix.__init__(self, h, N, lxi, lz, ly, T, part, set(none) | {'Qxiz'}, tsym)
        self.lyx, self.lpx, self.lpm = h.vec('lyx', T, N), h.vec('lpx', T, N), h.vec('lpm', T, N)
        self.nxt = h.vec('nxt', T, N, lxi)      # next nonlinear states
        self.wantn = self.noise = None

    def pred(self, k, i, z, P):
        A = self.at('Az', k, i)
        return A.dot(z) + self.at('fz', k, i), dot(A, P, A.T) + self.at('Qz', k, i)

    def model(self, base='HierarchicalRSBase', flatxi=False, rb=None, setdyn=False):
        S, h = self, self.h
        lxi = self.d['lxi']

        class M(getattr(h.mod(HI), base)):
            def get_lin_pred_dynamics(self, particles, u, t):
                k = S.check(particles, t, u)
                return tuple(S.answer(x, k, len(particles)) for x in ('Az', 'fz', 'Qz'))

            def get_lin_meas_dynamics(self, particles, y, t):
                k = S.check(particles, t, y=y)
                return (h.np.asarray(y).reshape((-1, 1)),) + tuple(S.answer(x, k, len(particles)) for x in ('C', 'h', 'R'))

            def measure_nonlin(self, particles, y, t):
                k = S.check(particles, t, y=y)
                return S.lyx[k].copy()

            def calc_xi_next(self, particles, u, t, noise):
                k = S.check(particles, t, u)
                h.eq(noise, S.noise, 'the next nonlinear state is asked for with the given noise')
                return S.nxt[k].reshape((-1,)).copy() if flatxi else S.nxt[k].copy()

            def logp_xnext_xi(self, particles, next_xi, u, t):
                k = S.check(particles, t, u)
                h.same(np.shape(next_xi), (S.N, lxi), 'one next nonlinear state per particle')
                h.eq(next_xi, S.wantn, 'the nonlinear density is asked for the matching next state')
                return S.lpx[k].copy()

            def logp_xnext_xi_max(self, particles, u, t):
                return S.lpm[S.check(particles, t, u)].copy()

            def get_rb_initial(self, xi):
                if rb is None:
                    h.fail('no initial state is needed here')
                z0, P0 = rb
                h.eq(flat(h, xi), flat(h, S.want), 'initial linear states are asked for the initial nonlinear ones')
                return S.stackn(z0), S.stackn(P0)

            def create_initial_estimate(self, N):
                h.fail('no initial state is needed here')

            def sample_process_noise(self, particles, u, t):
                h.fail('no noise is needed here')
        kw = self.lin()
        m = M(len_xi=lxi, len_z=self.d['lz'], **({} if setdyn else kw))
        if setdyn:
            m.set_dynamics(**kw)
        return m

    def lin(self):
        kw = self.con('Az', 'fz', 'Qz', 'C', 'R')
        if 'h' not in self.part and 'h' not in self.none:
            kw['hz'] = self.at('h', 0, 0).copy()
        return kw

    def settle(self, m):
        m.set_dynamics(**self.lin())

    def stackn(self, vals):
        n = len(vals)
        return self.h.mkarr([v for a in vals for v in flat(self.h, a)], (n,) + np.shape(vals[0]))


def sure(c):
    return isinstance(c, (bool, np.bool_)) and bool(c)


def mk(h, T=1, **k):
    P = h.p
    S = Hier(h, P.get('M', P.get('N')), P['lxi'], P['lz'], P['ly'], T=T, part=P.get('part', ()), none=P.get('none', ()), **k)
    return S


def c36(h):
    P = h.p
    N, lxi, lz, ly = P['N'], P['lxi'], P['lz'], P['ly']
    S = mk(h)
    m = S.model(P.get('base', 'HierarchicalRSBase'), flatxi=P.get('flat', False), setdyn=P.get('setdyn', False))
    for _ in S.phases(m):
        a = Pts(h, S, 'a')
        u, t, y = S.u[0], S.t[0], S.y[0]
        S.want = a.xi
        S.noise = h.vec('v', N)
        x = a.part.copy()
        r = m.update(x, u, t, S.noise.copy())
        for nm, q in (('returned', r), ('stored', x)):
            for i in range(N):
                zn, Pn = S.pred(0, i, a.z[i], a.P[i])
                h.eq(q[i], rows(h, S.nxt[0][i:i + 1], [zn], [Pn])[0], 'drawn nonlinear state with the linear state predicted by the matrices of its own particle is %s' % nm)
        # towards given nonlinear states
        fut = Pts(h, S, 'f', P.get('Nf', N))
        find = np.array([h.choose(len(fut.part), 'find') for _ in range(N)], dtype=int)
        x, fp = a.part.copy(), fut.part.copy()
        q = m.cond_predict_single_step(part=x, past_trajs=None, pind=None, future_parts=fp, find=find, ut=[u], yt=[y], tt=[t], cur_ind=0)
        for i in range(N):
            zn, Pn = S.pred(0, i, a.z[i], a.P[i])
            h.eq(q[i], rows(h, [fut.xi[find[i]]], [zn], [Pn])[0], 'state predicted towards the chosen future nonlinear state')
        h.eq(x, a.part, 'the filter particles are left alone')
        h.eq(fp, fut.part, 'the future particles are left alone')


def c36_meas(h):
    P = h.p
    N = P['N']
    S = mk(h)
    m = S.model(P.get('base', 'HierarchicalRSBase'), setdyn=P.get('setdyn', False))
    for _ in S.phases(m):
        a = Pts(h, S, 'a')
        S.want = a.xi
        for i in range(N):
            h.pd(S.meas(0, i, a.z[i], a.P[i])[1])
        x, y = a.part.copy(), S.y[0].copy()
        r = m.measure(x, y, S.t[0])
        h.same(np.shape(r), (N,), 'one likelihood per particle')
        for i in range(N):
            e, V, z, Pn = S.meas(0, i, a.z[i], a.P[i])
            h.eq(r[i], S.lyx[0][i] + lognorm(h, e, V), 'weight is the nonlinear likelihood times the exact linear innovation likelihood')
            h.eq(x[i], rows(h, a.xi[i:i + 1], [z], [Pn])[0], 'linear state is corrected by the measurement with the matrices of its own particle')
        h.eq(y, S.y[0], 'the measurement is left alone')


def c36_dens(h):
    P = h.p
    N, lxi, lz = P['N'], P['lxi'], P['lz']
    Nn = P.get('Nn', N)
    S = mk(h)
    m = S.model('HierarchicalRSBase')
    for _ in S.phases(m):
        a, f = Pts(h, S, 'a'), Pts(h, S, 'f', Nn)
        u, t = S.u[0], S.t[0]
        S.want, S.wantn = a.xi, (f.xi if Nn == N else f.xi[[0] * N])
        J = [S.pred(0, i, a.z[i], a.P[i]) for i in range(N)]
        for j in J:
            h.pd(j[1])
        x, nx = a.part.copy(), rows(h, f.xi, f.z) if P.get('short') else f.part.copy()
        keep = nx.copy()
        r = m.logp_xnext(x, nx, u, t)
        h.same(np.shape(r), (N,), 'one density per particle')
        for i in range(N):
            h.eq(r[i], S.lpx[0][i] + lognorm(h, f.z[i if Nn == N else 0] - J[i][0], J[i][1]), 'density of the next nonlinear state times that of the next linear state')
        top = [S.lpm[0][i] + lognorm(h, h.zeros((lz, 1)), J[i][1]) for i in range(N)]
        mx = m.logp_xnext_max(x, u, t)
        h.eq(mx, h.maxof(top) if N > 1 else top[0], 'the bound is the largest density over particles and next states')
        h.eq(m.logp_xnext_max_full(x, None, None, [u], None, [t], 0), mx, 'the bound is used by the rejection samplers')
        h.eq(x, a.part, 'the particles are left alone')
        h.eq(nx, keep, 'the future states are left alone')


def c36_smooth(h):
    P = h.p
    M, lxi, lz, T, k = P['M'], P['lxi'], P['lz'], P['T'], P['k']
    F = h.mod(FILTER)
    S = mk(h)
    m = S.model(P.get('base', 'HierarchicalRSBase'))
    a = Pts(h, S, 'a')
    d = lxi + lz
    u, y, t = h.vec('uu', T), h.vec('yy', T), h.vec('tt', T)
    S.u, S.t = u[k:k + 1], t[k:k + 1]
    S.want = None

    def chk(particles, t, u=None, y=None, who=''):
        # asked for all particles or for one of them at a time, whichever the implementation prefers
        h.eq(t, S.t[0], 'matrices are asked for the right time')
        h.eq(u, S.u[0], 'matrices are asked for the input of the step')
        return 0
    S.check = chk

    def answer(key, k, n):
        if key not in S.part:
            return None
        if n == M:
            h.eq(S.seen[:, :lxi], a.xi, 'matrices are asked for the nonlinear states of the particles')
            return [S.at(key, 0, i).copy() for i in range(M)]
        h.same(n, 1, 'matrices are asked for particles')
        for i in range(M):
            if all(sure(h.eqc(S.seen[0, c], a.xi[i, c])) for c in range(lxi)):
                return [S.at(key, 0, i).copy()]
        h.fail('matrices are asked for the nonlinear states of a particle')
    S.answer = answer
    old = m.get_lin_pred_dynamics

    def gd(particles, u, t):
        S.seen = particles
        return old(particles, u, t)
    m.get_lin_pred_dynamics = gd
    x = a.part.copy()
    keep, post = None, []
    if k == T - 1:
        args = dict(part=x, ptraj=None, anc=None, future_trajs=None, find=None, ut=u, yt=y, tt=t, cur_ind=k)
        post = [(a.z[j], a.P[j]) for j in range(M)]
    else:
        Mf = P['Mf']
        nx = [h.vec('n%d' % i, Mf, d + P.get('extra', 0)) for i in range(k + 1, T)]
        keep = [q.copy() for q in nx]
        fut = [F.TrajectoryStep(F.ParticleApproximation(q), np.arange(Mf)) for q in nx]
        find = np.array([h.choose(Mf, 'find') for _ in range(M)], dtype=int) if P.get('find') else np.arange(M)
        for j in range(M):
            mu, Sg = S.pred(0, j, a.z[j], a.P[j])
            h.pd(Sg)
            A = S.at('Az', 0, j)
            G = dot(a.P[j], A.T, h.inv(Sg))
            post.append((a.z[j] + G.dot(nx[0][find[j], lxi:d].reshape((lz, 1)) - mu), a.P[j] - dot(G, A, a.P[j])))
        args = dict(part=x, ptraj=None, anc=None, future_trajs=fut, find=find, ut=u, yt=y, tt=t, cur_ind=k)
    mean, cov, nz = h.law(lambda: m.sample_smooth(**args)[:, :d])
    h.eq(mean, h.mkarr([v for j in range(M) for v in list(a.xi[j]) + list(flat(h, post[j][0]))], (M * d,)), 'sampled states: own nonlinear state kept, linear state drawn around its own conditional mean')
    C = h.zeros((M * d, M * d))
    for j in range(M):
        C[j * d + lxi:(j + 1) * d, j * d + lxi:(j + 1) * d] = post[j][1]
    h.eq(cov, C, 'sampled states: linear state drawn with its own conditional covariance given the drawn future, independently')
    h.eq(x, a.part, 'the filter particles are left alone')
    if keep:
        for q, s in zip(keep, args['future_trajs']):
            h.eq(s.pa.part, q, 'the future trajectories are left alone')


def lin_batch(h, S, j, z0, P0, miss):
    """means and covariances of all linear states given the measurements"""
    T, lz, ly = S.T, S.d['lz'], S.d['ly']
    n = T * lz
    mu, cov = h.zeros((n, 1)), h.zeros((n, n))
    mu[:lz], cov[:lz, :lz] = z0, P0
    for k in range(T - 1):
        a, b, c = k * lz, (k + 1) * lz, (k + 2) * lz
        A = S.at('Az', k, j)
        mu[b:c] = A.dot(mu[a:b]) + S.at('fz', k, j)
        cov[b:c, :b] = A.dot(cov[a:b, :b])
        cov[:b, b:c] = cov[b:c, :b].T
        cov[b:c, b:c] = dot(A, cov[a:b, a:b], A.T) + S.at('Qz', k, j)
    obs = [k for k in range(T) if k not in miss]
    if not obs:
        return mu, cov
    ny = len(obs) * ly
    H, e, R = h.zeros((ny, n)), h.zeros((ny, 1)), h.zeros((ny, ny))
    for q, k in enumerate(obs):
        s = slice(q * ly, (q + 1) * ly)
        H[s, k * lz:(k + 1) * lz] = S.at('C', k, j)
        e[s] = S.y[k] - S.at('h', k, j)
        R[s, s] = S.at('R', k, j)
    V = dot(H, cov, H.T) + R
    h.pd(V)
    G = dot(cov, H.T, h.inv(V))
    return mu + G.dot(e - H.dot(mu)), cov - dot(G, H, cov)


def c36_post(h):
    P = h.p
    M, lxi, lz, T, miss = P['M'], P['lxi'], P['lz'], P['T'], P.get('miss', ())
    F = h.mod(FILTER)
    S = Hier(h, M, lxi, lz, 1, T=T, part=('Az', 'fz', 'Qz', 'C', 'h', 'R'), tsym=False)
    z0, P0 = h.vec('z0', M, lz, 1), h.spdn('P0', M, lz)
    m = S.model(P.get('base', 'HierarchicalRSBase'), rb=(z0, P0))
    xi = [h.vec('x%d' % k, M, lxi) for k in range(T)]
    S.want = xi[0]
    for j in range(M):
        z, Pc = z0[j], P0[j]
        for k in range(T):
            if k not in miss:
                _, V, z, Pc = S.meas(k, j, z, Pc)
                h.pd(V)
            if k + 1 < T:
                z, Pc = S.pred(k, j, z, Pc)
                h.pd(Pc)
    ref = [lin_batch(h, S, j, z0[j], P0[j], miss) for j in range(M)]
    check = S.check

    def chk(particles, t, u=None, y=None, who=''):
        S.want = xi[int(t)]
        return check(particles, t, u, y)
    S.check = chk

    class St(object):
        pass
    st = St()
    extra = P.get('extra', 0)
    traj = [rows(h, xi[k], h.vec('s%d' % k, M, lz + extra)) for k in range(T)]
    keep = [q.copy() for q in traj]
    st.traj = np.empty((T,), dtype=object)
    for k in range(T):
        st.traj[k] = F.TrajectoryStep(F.ParticleApproximation(traj[k]), np.arange(M))
    st.u, st.t, st.y = [S.u[k] for k in range(T)], list(range(T)), [None if k in miss else S.y[k] for k in range(T)]
    r = m.post_smoothing(st)
    h.same(len(r), T, 'one step per time')
    for k in range(T):
        p = r[k].pa.part
        h.same(np.shape(p), (M, lxi + lz + 2 * lz * lz), 'nonlinear state, mean, covariance and cross covariance of every trajectory')
        a, b = k * lz, (k + 1) * lz
        for j in range(M):
            mu, cov = ref[j]
            h.eq(p[j, :lxi], xi[k][j], 'nonlinear trajectory is kept')
            h.eq(p[j, lxi:lxi + lz], mu[a:b, 0], 'smoothed linear mean given all measurements with the matrices of its own trajectory')
            h.eq(p[j, lxi + lz:lxi + lz + lz * lz], cov[a:b, a:b].reshape((-1,)), 'smoothed linear covariance given all measurements')
            if k + 1 < T:
                h.eq(p[j, lxi + lz + lz * lz:], cov[a:b, b:b + lz].reshape((-1,)), 'cross covariance with the next linear state')
    for k in range(T):
        h.eq(st.traj[k].pa.part, keep[k], 'the sampled trajectories are left alone')


ALL = ('Az', 'fz', 'Qz', 'C', 'h', 'R')
BOTH = ('pure', 'ext')
for kw in [dict(N=2, lxi=1, lz=1, ly=1), dict(N=2, lxi=1, lz=1, ly=1, flat=True, part=ALL), dict(N=3, lxi=2, lz=2, ly=1, part=('Az', 'fz', 'Qz')), dict(N=2, lxi=1, lz=2, ly=1, part=('Az',)), dict(N=2, lxi=1, lz=2, ly=1, part=('fz',)),
           dict(N=2, lxi=1, lz=2, ly=1, part=('Qz',)), dict(N=2, lxi=1, lz=2, ly=1, none=('fz',)), dict(N=2, lxi=1, lz=1, ly=1, base='HierarchicalBase', Nf=3, setdyn=True)]:
    add('C36', label('update', kw), c36, kw, BOTH if kw['N'] == 2 else ('pure',))
for kw in [dict(N=2, lxi=1, lz=1, ly=1), dict(N=2, lxi=1, lz=1, ly=1, part=ALL), dict(N=3, lxi=2, lz=1, ly=1, part=('C', 'h', 'R')), dict(N=2, lxi=1, lz=2, ly=1, part=('C',)), dict(N=2, lxi=1, lz=1, ly=2, part=('R',)), dict(N=1, lxi=1, lz=2, ly=2),
           dict(N=2, lxi=1, lz=1, ly=2, part=('h',)), dict(N=2, lxi=1, lz=2, ly=1, none=('h',)), dict(N=2, lxi=1, lz=1, ly=1, none=('C',)), dict(N=2, lxi=1, lz=1, ly=1, none=('C',), part=('h', 'R')), dict(N=2, lxi=1, lz=1, ly=1, none=('h',), part=('C',)), dict(N=2, lxi=1, lz=1, ly=1, base='HierarchicalBase', setdyn=True)]:
    add('C36', label('measure', kw), c36_meas, kw, BOTH if kw['N'] == 2 else ('pure',))
for kw in [dict(N=2, lxi=1, lz=1, ly=1, part=ALL), dict(N=3, lxi=1, lz=1, ly=1, Nn=1), dict(N=2, lxi=2, lz=1, ly=1, Nn=1, part=('Az', 'Qz'), short=True), dict(N=2, lxi=1, lz=2, ly=1, part=('fz', 'Qz')), dict(N=1, lxi=1, lz=2, ly=1), dict(N=2, lxi=1, lz=1, ly=1, none=('fz',), part=('Qz',))]:
    add('C36', label('density', kw), c36_dens, kw, BOTH if kw['N'] == 2 else ('pure',))
for kw in [dict(M=2, lxi=1, lz=1, ly=1, T=3, k=1, Mf=2, find=True, part=('Az', 'fz', 'Qz')), dict(M=2, lxi=2, lz=1, ly=1, T=3, k=0, Mf=3, find=True), dict(M=2, lxi=1, lz=2, ly=1, T=2, k=0, Mf=2, find=True, part=('Az',)), dict(M=3, lxi=1, lz=2, ly=1, T=2, k=1), dict(M=2, lxi=1, lz=1, ly=1, T=2, k=1),
           dict(M=3, lxi=1, lz=1, ly=1, T=2, k=0, Mf=2, find=True, extra=2, base='HierarchicalBase', part=('Qz',))]:
    add('C36', label('sample', kw), c36_smooth, kw, BOTH if kw['M'] == 2 else ('pure',))
for kw in [dict(M=2, lxi=1, lz=1, T=2), dict(M=1, lxi=1, lz=1, T=3), dict(M=2, lxi=1, lz=1, T=3, miss=(1,)), dict(M=1, lxi=2, lz=2, T=2, miss=(0,)), dict(M=1, lxi=1, lz=2, T=2, miss=(1,), extra=2), dict(M=2, lxi=1, lz=1, T=4, miss=(0, 2))]:
    add('C36', label('post', kw), c36_post, kw)
for kw in [dict(M=1, lxi=1, lz=2, T=2), dict(M=1, lxi=1, lz=1, T=4), dict(M=3, lxi=1, lz=1, T=3), dict(M=1, lxi=1, lz=2, T=3, miss=(0, 2))]:
    add('C36', label('post', kw), c36_post, kw, tier='thorough', budget=700)
info('C36', 'up to 3 particles, one or two nonlinear and linear states and measurements; every particle, mean, covariance, matrix (constant, per particle or absent), and every answer of the nonlinear part; smoothing over 2-4 steps with and without missing measurements',
     ['the user model answers by arbitrary tables and the arguments it is asked for are checked', 'sums of positive definite and positive semidefinite matrices, and conditional covariances, are positive definite'] + EXT)

# the model has been used with other parameter values before
for kw in [dict(N=1, lxi=1, lz=1, ly=1, warm=True), dict(N=2, lxi=1, lz=1, ly=1, warm=True, part=ALL)]:
    add('C36', label('update', kw), c36, kw, BOTH)
    add('C36', label('measure', kw), c36_meas, kw, BOTH)
    add('C36', label('density', kw), c36_dens, kw, BOTH)
