"""C31-C33: the mixed linear/nonlinear Gaussian model."""
import numpy as np
from engine.cases import add, info, label
from harness.e_kalman import flat, val, dot, lognorm, snapshot, unchanged
from harness.f_nlg import block
from harness.g_ltv import EXT

ML = 'pyparticleest.models.mlnlg'
FILTER = 'pyparticleest.filter'
SHAPES = dict(Axi=('lxi', 'lz'), fxi=('lxi', 1), Az=('lz', 'lz'), fz=('lz', 1), C=('ly', 'lz'), h=('ly', 1))
ZERO = dict(fxi=('lxi', 1), fz=('lz', 1), C=('ly', 'lz'), h=('ly', 1), Qxiz=('lxi', 'lz'))


class Mix(object):
    """matrices of a mixed model; every one constant, given per particle ('part') or absent ('none')"""

    def __init__(self, h, N, lxi, lz, ly, T=1, part=(), none=('Qxiz',), tsym=True):
        self.h, self.N, self.T = h, N, T
        self.d = dict(lxi=lxi, lz=lz, ly=ly)
        self.d[1] = 1
        self.part, self.none = set(part), set(none)
        self.u, self.t, self.y = h.vec('u', T), (h.vec('t', T) if tsym else list(range(T))), h.vec('y', T, ly, 1)
        self.want = None        # nonlinear states the matrices must be asked for
        self.tables('')
        self.warm = h.p.get('warm')
        if self.warm:       # the model starts out with other parameter values
            self.true = self.tab
            self.tables('old')

    def tables(self, pre):
        h, N, T = self.h, self.N, self.T
        self.pre = pre
        tab = self.tab = {}
        for k, (a, b) in SHAPES.items():
            self.fill(k, lambda nm: h.vec(pre + nm, self.d[a], self.d[b]))
        self.fill('Qxi', lambda nm: h.spd(pre + nm, self.d['lxi']))
        self.fill('R', lambda nm: h.spd(pre + nm, self.d['ly']))
        self.fill('Qxiz', lambda nm: h.vec(pre + nm, self.d['lxi'], self.d['lz']))
        # the joint noise covariance is positive definite exactly when this Schur complement is
        self.fill('Qc', lambda nm: h.spd(pre + nm, self.d['lz']), as_='Qz')
        if 'Qxiz' in self.none:
            tab['Qz'] = tab['Qc']
        else:
            tab['Qz'] = [[tab['Qc'][k][i] + dot(tab['Qxiz'][k][i].T, h.inv(tab['Qxi'][k][i]), tab['Qxiz'][k][i]) for i in range(N)] for k in range(T)]

    DYN = ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'Qxiz', 'C', 'h', 'R')

    def phases(self, m):
        """once; or with earlier parameter values of the model first"""
        if self.warm:
            yield 0
            self.__dict__.pop('check', None)
            self.want = None
            self.tab = self.true
            self.settle(m)
        yield 1

    def settle(self, m):
        m.set_dynamics(**self.con(*self.DYN))

    def fill(self, key, new, as_=None):
        h = self.h
        if key in self.none:
            a, b = ZERO[key]
            z = h.zeros((self.d[a], self.d[b]))
            self.tab[key] = [[z] * self.N for _ in range(self.T)]
        elif (as_ or key) in self.part:
            self.tab[key] = [[new('%s_%d_%d' % (key, k, i)) for i in range(self.N)] for k in range(self.T)]
        else:
            x = new(key)
            self.tab[key] = [[x] * self.N for _ in range(self.T)]

    def at(self, key, k, i):
        return self.tab[key][k][i]

    def A(self, k, i):
        return self.stack(self.at('Axi', k, i), self.at('Az', k, i))

    def f(self, k, i):
        return self.stack(self.at('fxi', k, i), self.at('fz', k, i))

    def stack(self, a, b):
        out = self.h.zeros((len(a) + len(b), a.shape[1]))
        out[:len(a)] = a
        out[len(a):] = b
        return out

    def Q(self, k, i):
        lxi, lz = self.d['lxi'], self.d['lz']
        out = self.h.zeros((lxi + lz, lxi + lz))
        X = self.at('Qxiz', k, i)
        out[:lxi, :lxi], out[:lxi, lxi:], out[lxi:, :lxi], out[lxi:, lxi:] = self.at('Qxi', k, i), X, X.T, self.at('Qz', k, i)
        return out

    def joint(self, k, i, z, P):
        """mean and covariance of [xi+, z+]"""
        A = self.A(k, i)
        return A.dot(z) + self.f(k, i), dot(A, P, A.T) + self.Q(k, i)

    def cond(self, k, i, z, P, xn):
        """mean and covariance of z+ given xi+ = xn"""
        h, lxi = self.h, self.d['lxi']
        m, S = self.joint(k, i, z, P)
        h.pd(S[:lxi, :lxi])
        G = S[lxi:, :lxi].dot(h.inv(S[:lxi, :lxi]))
        return m[lxi:] + G.dot(xn.reshape((lxi, 1)) - m[:lxi]), S[lxi:, lxi:] - G.dot(S[:lxi, lxi:])

    def meas(self, k, i, z, P):
        """innovation, its covariance and the updated mean and covariance"""
        h, C = self.h, self.at('C', k, i)
        V = dot(C, P, C.T) + self.at('R', k, i)
        e = self.y[k] - C.dot(z) - self.at('h', k, i)
        h.pd(V)
        G = dot(P, C.T, h.inv(V))
        return e, V, z + G.dot(e), P - dot(G, C, P)

    def con(self, *keys):
        """constructor arguments"""
        return {k: self.at(k, 0, 0).copy() for k in keys if k not in self.part and k not in self.none}

    def answer(self, key, k, n):
        if key not in self.part:
            return None
        return [self.at(key, k, i).copy() for i in range(n)]

    def check(self, particles, t, u=None, y=None, who=''):
        h = self.h
        k = int(t) if self.T > 1 else 0
        h.same(len(particles), self.N, 'matrices are asked for every particle')
        if self.want is not None:
            h.eq(particles[:, :self.d['lxi']], self.want, 'matrices are asked for the nonlinear states of the particles')
        h.eq(t, self.t[k] + getattr(self, 'shift_t', 0) if y is not None else self.t[k], 'matrices are asked for the right time')
        if u is not None:
            h.eq(u, self.u[k], 'matrices are asked for the input of the step')
        if y is not None:
            h.eq(flat(h, y), flat(h, self.y[k]), 'matrices are asked for the measurement of the step')
        return k

    def model(self, base='MixedNLGaussianSampled', ctor=None, mixin=None, setdyn=False):
        S, h = self, self.h

        bases = ((mixin,) if mixin else ()) + (getattr(h.mod(ML), base),)

        class M(*bases):
            def get_nonlin_pred_dynamics(self, particles, u, t):
                k = S.check(particles, t, u)
                return tuple(S.answer(x, k, len(particles)) for x in ('Axi', 'fxi', 'Qxi'))

            def get_lin_pred_dynamics(self, particles, u, t):
                k = S.check(particles, t, u)
                return tuple(S.answer(x, k, len(particles)) for x in ('Az', 'fz', 'Qz'))

            def get_cross_covariance(self, particles, u, t):
                k = S.check(particles, t, u)
                return S.answer('Qxiz', k, len(particles)) if 'Qxiz' not in S.none else None

            def get_meas_dynamics(self, particles, y, t):
                k = S.check(particles, t, y=y)
                return (h.np.asarray(y).reshape((-1, 1)),) + tuple(S.answer(x, k, len(particles)) for x in ('C', 'h', 'R'))

            def create_initial_estimate(self, N):
                if base.endswith('InitialGaussian'):
                    return super(M, self).create_initial_estimate(N)
                h.fail('no initial state is needed here')

            def get_rb_initial(self, xi):
                if base.endswith('InitialGaussian'):
                    return super(M, self).get_rb_initial(xi)
                h.fail('no initial state is needed here')
        kw = self.con('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'Qxiz', 'C', 'h', 'R')
        if not base.endswith('InitialGaussian'):
            kw.update(lxi=S.d['lxi'], lz=S.d['lz'])
        kw.update(ctor or {})
        if setdyn:
            dyn = {k: kw.pop(k) for k in list(kw) if k in SHAPES or k in ('Qxi', 'Qz', 'Qxiz', 'R')}
            if setdyn is not True:        # some are changed later, the others stay
                kw.update({k: v for k, v in dyn.items() if k not in setdyn})
                dyn = {k: v for k, v in dyn.items() if k in setdyn}
                kw.update({k: h.spd('old' + k, len(v)) if k in ('Qxi', 'Qz', 'R') else h.vec('old' + k, *np.shape(v)) for k, v in dyn.items()})
            m = M(**kw)
            m.set_dynamics(**dyn)
            return m
        return M(**kw)


def rows(h, xi, z, P=None, Mz=None):
    """particles in the layout of the model"""
    N = len(xi)
    out = []
    for i in range(N):
        for a in (xi, z, P, Mz):
            if a is not None:
                out += list(flat(h, a[i]))
    return h.mkarr(out, (N, len(out) // N))


class Pts(object):
    """N arbitrary particles"""

    def __init__(self, h, S, nm, N=None):
        lxi, lz, N = S.d['lxi'], S.d['lz'], N or S.N
        self.xi, self.z, self.P = h.vec(nm + 'xi', N, lxi), h.vec(nm + 'z', N, lz, 1), h.spdn(nm + 'P', N, lz)
        self.part = rows(h, self.xi, self.z, self.P)


def c31(h):
    P = h.p
    N, lxi, lz, ly = P['N'], P['lxi'], P['lz'], P['ly']
    S = Mix(h, N, lxi, lz, ly, part=P.get('part', ()), none=P.get('none', ('Qxiz',)))
    m = S.model(setdyn=P.get('setdyn', False))
    for _ in S.phases(m):
        a = Pts(h, S, 'a')
        u, t, y = S.u[0], S.t[0], S.y[0]
        dim = lxi + lz + lz * lz
        J = [S.joint(0, i, a.z[i], a.P[i]) for i in range(N)]
        for j in J:
            h.pd(j[1][:lxi, :lxi])          # a positive definite plus a positive semidefinite matrix
        S.want = a.xi
        x = a.part.copy()
        mean, cov, nz = h.law(lambda: m.sample_process_noise(x, u, t))
        h.eq(mean, h.zeros((N * lxi,)), 'nonlinear noise has mean zero')
        h.eq(cov, block(h, [j[1][:lxi, :lxi] for j in J]), 'nonlinear noise has the predictive covariance, independent between particles')
        h.same(np.shape(m.sample_process_noise(x, u, t)), (N, lxi), 'one noise vector per particle')
        h.eq(x, a.part, 'sampling noise leaves the particles alone')
        v = h.vec('v', N, lxi)
        r = m.update(x, u, t, v.copy())
        for nm, q in (('returned', r), ('stored', x)):
            h.same(np.shape(q), (N, dim), 'layout of the %s particles' % nm)
            for i in range(N):
                xn = J[i][0][:lxi] + v[i].reshape((lxi, 1))
                zc, Pc = S.cond(0, i, a.z[i], a.P[i], xn)
                h.eq(q[i, :lxi], xn.reshape((-1,)), 'next nonlinear state is %s' % nm)
                h.eq(q[i, lxi:lxi + lz], zc.reshape((-1,)), 'linear mean given the drawn nonlinear state is %s' % nm)
                h.eq(q[i, lxi + lz:], Pc.reshape((-1,)), 'linear covariance given the drawn nonlinear state is %s' % nm)
        # one step prediction towards given nonlinear states
        Nf = P.get('Nf', N)
        fut = Pts(h, S, 'f', Nf)
        find = np.array([h.choose(Nf, 'find') for _ in range(N)], dtype=int)
        x = a.part.copy()
        q = m.cond_predict_single_step(part=x, past_trajs=None, pind=None, future_parts=fut.part, find=find, ut=[u], yt=[y], tt=[t], cur_ind=0)
        for i in range(N):
            zc, Pc = S.cond(0, i, a.z[i], a.P[i], fut.xi[find[i]])
            h.eq(q[i], rows(h, [fut.xi[find[i]]], [zc], [Pc])[0], 'state predicted towards the chosen future nonlinear state')
        h.eq(x, a.part, 'the filter particles are left alone')


def c31_meas(h):
    P = h.p
    N, lxi, lz, ly = P['N'], P['lxi'], P['lz'], P['ly']
    S = Mix(h, N, lxi, lz, ly, part=P.get('part', ()), none=P.get('none', ('Qxiz',)))
    m = S.model(setdyn=P.get('setdyn', False))
    for _ in S.phases(m):
        a = Pts(h, S, 'a')
        u, t, y = S.u[0], S.t[0], S.y[0]
        S.want = a.xi
        for i in range(N):
            h.pd(S.meas(0, i, a.z[i], a.P[i])[1])
        x = a.part.copy()
        r = m.measure(x, y.copy(), t)
        h.same(np.shape(r), (N,), 'one likelihood per particle')
        for i in range(N):
            e, V, z, Pn = S.meas(0, i, a.z[i], a.P[i])
            h.eq(r[i], lognorm(h, e, V), 'weight is the marginal likelihood of the measurement')
            h.eq(x[i], rows(h, a.xi[i:i + 1], [z], [Pn])[0], 'linear state is corrected by the measurement')
        # first stage weights: likelihood at the noise free prediction of the next step
        J = [S.joint(0, i, a.z[i], a.P[i]) for i in range(N)]
        for j in J:
            h.pd(j[1][:lxi, :lxi])
        xn = [j[0][:lxi] for j in J]
        nx = [S.cond(0, i, a.z[i], a.P[i], xn[i]) for i in range(N)]
        for i in range(N):
            h.pd(S.meas(0, i, *nx[i])[1])
        x = a.part.copy()
        stage = {}

        def want(particles, t, u=None, y=None, who=''):
            h.same(len(particles), N, 'matrices are asked for every particle')
            h.eq(particles[:, :lxi], S.want if u is not None else h.mkarr([v for q in xn for v in flat(h, q)], (N, lxi)), 'matrices are asked for the nonlinear states of the particles')
            h.eq(t, S.t[0] if u is not None else S.t[0] + 1, 'matrices are asked for the right time')
            if u is not None:
                h.eq(u, S.u[0], 'matrices are asked for the input of the step')
            else:
                h.eq(flat(h, y), flat(h, S.y[0]), 'matrices are asked for the measurement')
            return 0
        S.check = want
        r = m.eval_1st_stage_weights(x, u, y.copy(), t)
        h.same(np.shape(r), (N,), 'one first stage weight per particle')
        for i in range(N):
            e, V, _, _ = S.meas(0, i, *nx[i])
            h.eq(r[i], lognorm(h, e, V), 'first stage weight is the likelihood of the noise free prediction')
        h.eq(x, a.part, 'first stage weights leave the particles alone')


def c31_init(h):
    P = h.p
    N, lxi, lz = P['N'], P['lxi'], P['lz']
    S = Mix(h, N, lxi, lz, 1)
    xi0, z0 = h.vec('xi0', lxi), h.vec('z0', lz)
    Pxi0 = {'spd': h.spd('Pxi0', lxi), 'zero': h.zeros((lxi, lxi)), 'none': None}[P['Pxi0']]
    Pz0 = {'spd': h.spd('Pz0', lz), 'zero': h.zeros((lz, lz)), 'none': None}[P['Pz0']]
    sh = (lambda v: v.reshape((-1, 1))) if P.get('col') else (lambda v: v)
    ctor = dict(xi0=sh(xi0), z0=sh(z0))
    if Pxi0 is not None or not P.get('omit'):
        ctor['Pxi0'] = Pxi0
    if Pz0 is not None or not P.get('omit'):
        ctor['Pz0'] = Pz0
    m = S.model(P.get('base', 'MixedNLGaussianSampledInitialGaussian'), ctor)
    cx = Pxi0 if P['Pxi0'] == 'spd' else h.zeros((lxi, lxi))
    cz = Pz0 if P['Pz0'] == 'spd' else h.zeros((lz, lz))
    for ph in ((0, 1) if P.get('before') else (1,)):
        if ph and P.get('before'):      # the initial law changes with the parameters
            xi0, z0, Pxi0, Pz0 = h.vec('xi0n', lxi), h.vec('z0n', lz), h.spd('Pxi0n', lxi), h.spd('Pz0n', lz)
            for nm, v in (('xi0', xi0), ('z0', z0), ('Pxi0', Pxi0), ('Pz0', Pz0)):
                old = getattr(m, nm)
                if P['before'] == 'inplace':
                    old[...] = v.reshape(old.shape)
                else:
                    setattr(m, nm, v.copy().reshape(old.shape))
            cx, cz = Pxi0, Pz0
        dim = lxi + lz + lz * lz
        mean, cov, nz = h.law(lambda: m.create_initial_estimate(N)[:, :lxi])
        h.eq(mean, h.mkarr([xi0[k] for _ in range(N) for k in range(lxi)], (N * lxi,)), 'initial nonlinear states have mean xi0')
        h.eq(cov, block(h, [cx] * N), 'initial nonlinear states have the declared covariance, independent between particles')
        x = m.create_initial_estimate(N)
        h.same(np.shape(x), (N, dim), 'layout of the initial particles')
        for i in range(N):
            h.eq(x[i, lxi:lxi + lz], z0, 'initial linear mean')
            h.eq(x[i, lxi + lz:], cz.reshape((-1,)), 'initial linear covariance')
        # states conditioned on the nonlinear part
        a = Pts(h, S, 'a')
        x = a.part.copy()
        q = m.cond_sampled_initial(x, h.real('t0'))
        h.eq(q, rows(h, a.xi, [z0] * N, [cz] * N), 'linear states are reset to their initial law given the nonlinear state')
        h.eq(x, a.part, 'the particles are left alone')
        # packing
        xi, z, Pl = m.get_states(x)
        h.same((np.shape(xi), np.shape(z), np.shape(Pl)), ((N, lxi, 1), (N, lz, 1), (N, lz, lz)), 'shapes of the unpacked states')
        for i in range(N):
            h.eq(flat(h, xi[i]), a.xi[i], 'nonlinear states are unpacked')
            h.eq(z[i], a.z[i], 'linear means are unpacked')
            h.eq(Pl[i], a.P[i], 'linear covariances are unpacked')
        w = h.zeros((N, dim + lz * lz))
        m.set_states(w, xi, z, Pl)
        Mz = h.vec('M', N, lz, lz)
        m.set_Mz(w, Mz)
        h.eq(w, rows(h, a.xi, a.z, a.P, Mz), 'states and cross covariances are packed as they are unpacked')
        h.eq(m.get_Mz(w), Mz, 'cross covariances are unpacked')
        # density of the initial nonlinear state
        if P['Pxi0'] == 'spd':
            r = m.eval_logp_xi0(a.xi.reshape((N, lxi, 1)))
            h.same(np.shape(r), (N,), 'one density per particle')
            for i in range(N):
                h.eq(r[i], lognorm(h, a.xi[i] - xi0, Pxi0), 'initial density of the nonlinear state')
        else:
            far = h.mkarr([xi0[k] for _ in range(N) for k in range(lxi)], (N, lxi, 1))
            r = m.eval_logp_xi0(far)
            for i in range(N):
                h.same(num(r[i]), 0.0, 'a deterministic initial state has log density 0 at xi0')
            far[0, 0, 0] = far[0, 0, 0] + 1
            r = m.eval_logp_xi0(far)
            h.same(num(r[0]), float('-inf'), 'and minus infinity elsewhere')


def num(x):
    return float(x) if not hasattr(x, 'r') else float(x.r.const())


for kw in [dict(N=2, lxi=1, lz=1), dict(N=2, lxi=2, lz=1), dict(N=1, lxi=1, lz=2), dict(N=2, lxi=1, lz=1, none=()), dict(N=1, lxi=2, lz=1, none=()), dict(N=1, lxi=1, lz=2, none=()),
           dict(N=2, lxi=1, lz=1, none=(), part=('Axi', 'fxi', 'Az', 'fz', 'Qxi', 'Qxiz', 'Qz')), dict(N=2, lxi=2, lz=1, part=('Axi', 'fxi', 'Az', 'fz', 'Qxi', 'Qz')), dict(N=2, lxi=1, lz=1, none=('fxi', 'fz')),
           dict(N=2, lxi=1, lz=1, none=('Qxiz', 'fxi', 'fz'), part=('Axi',)), dict(N=2, lxi=1, lz=1, part=('fxi',)), dict(N=2, lxi=1, lz=1, part=('Qxi',)), dict(N=2, lxi=1, lz=1, part=('fz',)), dict(N=2, lxi=1, lz=1, part=('Az',)),
           dict(N=2, lxi=1, lz=1, part=('Qz',)), dict(N=2, lxi=1, lz=1, none=(), part=('Qxi', 'Qz')), dict(N=2, lxi=1, lz=1, none=(), part=('Axi', 'fxi'), setdyn=True), dict(N=2, lxi=1, lz=1, setdyn=True), dict(N=1, lxi=1, lz=1, none=(), setdyn=('Axi', 'fxi', 'Qxiz', 'Qz')), dict(N=1, lxi=1, lz=1, none=(), setdyn=('Az', 'fz', 'Qxi')), dict(N=2, lxi=1, lz=1, setdyn=())]:
    kw = dict(kw, ly=1)
    add('C31', label('step', kw), c31, kw, ('pure', 'ext') if kw['N'] == 2 else ('pure',))
for kw in [dict(N=1, lxi=2, lz=2, ly=1), dict(N=1, lxi=2, lz=2, ly=1, none=())]:
    add('C31', label('step', kw), c31, kw, tier='thorough', budget=600)
for kw in [dict(N=2, lxi=1, lz=1, ly=1), dict(N=2, lxi=1, lz=1, ly=2), dict(N=1, lxi=1, lz=2, ly=1), dict(N=1, lxi=2, lz=1, ly=1), dict(N=1, lxi=1, lz=2, ly=2), dict(N=2, lxi=1, lz=1, ly=1, part=('C', 'h', 'R')), dict(N=2, lxi=1, lz=1, ly=2, part=('C', 'h', 'R')),
           dict(N=2, lxi=1, lz=1, ly=1, none=('C', 'Qxiz')), dict(N=2, lxi=1, lz=1, ly=2, none=('C', 'Qxiz')), dict(N=2, lxi=1, lz=1, ly=1, none=('C', 'Qxiz'), part=('h',)), dict(N=2, lxi=1, lz=1, ly=2, none=('C', 'Qxiz'), part=('h',)), dict(N=1, lxi=1, lz=1, ly=2, none=('C', 'Qxiz'), part=('h',)),
           dict(N=2, lxi=1, lz=1, ly=1, none=('C', 'Qxiz'), part=('R',)), dict(N=2, lxi=1, lz=1, ly=2, none=('C', 'Qxiz'), part=('h', 'R')), dict(N=2, lxi=1, lz=1, ly=1, none=('h', 'Qxiz')), dict(N=2, lxi=1, lz=1, ly=2, none=('h', 'Qxiz'), part=('C',)),
           dict(N=2, lxi=1, lz=1, ly=2, part=('R',)), dict(N=2, lxi=1, lz=1, ly=1, part=('h',), none=(), setdyn=True), dict(N=2, lxi=1, lz=1, ly=1, setdyn=True), dict(N=1, lxi=1, lz=1, ly=1, setdyn=('C', 'R')), dict(N=1, lxi=1, lz=1, ly=2, setdyn=('h',)), dict(N=2, lxi=1, lz=1, ly=1, none=(), part=('Axi', 'fxi', 'Az', 'fz', 'Qxi', 'Qxiz', 'Qz', 'C', 'h', 'R'))]:
    add('C31', label('measure', kw), c31_meas, kw, ('pure', 'ext') if kw['N'] == 2 else ('pure',))
for kw in [dict(N=2, lxi=2, lz=2, Pxi0='spd', Pz0='spd'), dict(N=2, lxi=1, lz=2, Pxi0='none', Pz0='spd'), dict(N=2, lxi=2, lz=1, Pxi0='spd', Pz0='none'), dict(N=1, lxi=1, lz=1, Pxi0='none', Pz0='none', omit=True),
           dict(N=2, lxi=2, lz=1, Pxi0='zero', Pz0='zero', col=True), dict(N=2, lxi=1, lz=1, Pxi0='spd', Pz0='spd', base='MixedNLGaussianMarginalizedInitialGaussian', col=True)]:
    add('C31', label('initial', kw), c31_init, kw)
info('C31', 'up to 2 particles, one or two nonlinear and linear states (not both two in quick), measurement dimension <= 2; every matrix constant, per particle or absent, with and without correlated noise; every particle, input, noise, measurement',
     ['the user model answers by arbitrary tables and the arguments it is asked for are checked', 'sums of positive definite and positive semidefinite matrices are positive definite', 'measurements are made columns by the user model'] + EXT)


# ------------------------------------------------------------------ C32
def c32(h):
    P = h.p
    N, lxi, lz = P['N'], P['lxi'], P['lz']
    S = Mix(h, N, lxi, lz, 1, part=P.get('part', ()), none=P.get('none', ('Qxiz',)))
    m = S.model()
    for _ in S.phases(m):
        a = Pts(h, S, 'a')
        u, t = S.u[0], S.t[0]
        S.want = a.xi
        J = [S.joint(0, i, a.z[i], a.P[i]) for i in range(N)]
        for j in J:
            h.pd(j[1])
        d = lxi + lz
        x = a.part.copy()
        Nn = P.get('Nn', N)
        nxt = h.vec('n', Nn, d)
        wide = Pts(h, S, 'w', Nn).part
        wide[:, :d] = nxt
        for q in (nxt, wide):                       # sampled states, alone or with more columns
            q2 = q.copy()
            r = m.logp_xnext(x, q2, u, t)
            h.same(np.shape(r), (N,), 'one density per particle')
            for i in range(N):
                h.eq(r[i], lognorm(h, nxt[i if Nn > 1 else 0].reshape((-1, 1)) - J[i][0], J[i][1]), 'density of the next nonlinear and linear state')
            h.eq(q2, q, 'future states are left alone')
        lp = r
        top = m.logp_xnext(x, h.mkarr([v for j in J for v in flat(h, j[0])], (N, d)), u, t)
        mx = flat(h, m.logp_xnext_max(x, u, t))
        h.same(len(mx), 1, 'one bound for all particles')
        h.eq(mx[0], h.maxof([top[i] for i in range(N)]) if N > 1 else top[0], 'the bound is the largest density at the mean over the particles')
        h.eq(flat(h, m.logp_xnext_max_full(x, None, None, [u], None, [t], 0))[0], mx[0], 'the bound is used by the rejection samplers')
        if lxi + lz == 2 and P.get('dom', True):
            for i in range(N):
                h.true(h.le(0, top[i] - lp[i]), 'no next state is likelier than the mean')
        # marginal density of the nonlinear state alone
        Nf = P.get('Nf', 2)
        fut = Pts(h, S, 'f', Nf)
        find = np.array([h.choose(Nf, 'find') for _ in range(N)], dtype=int)
        f2 = fut.part.copy()
        r = m.logp_xnext_singlestep(part=x, past_trajs=None, pind=None, future_parts=f2, find=find, ut=[u], yt=[None], tt=[t], cur_ind=0)
        h.same(np.shape(r), (N,), 'one density per particle')
        for i in range(N):
            h.eq(r[i], lognorm(h, fut.xi[find[i]].reshape((-1, 1)) - J[i][0][:lxi], J[i][1][:lxi, :lxi]), 'density of the next nonlinear state alone')
        h.eq(x, a.part, 'the particles are left alone')
        h.eq(f2, fut.part, 'future states are left alone')


def c32_prop(h):
    """the smoothing proposals draw from the density they report (up to a constant)"""
    P = h.p
    N, M, lxi, lz, k = P['N'], P['M'], P['lxi'], P['lz'], P['k']
    F = h.mod(FILTER)
    S = Mix(h, M, lxi, lz, 1, part=P.get('part', ()), none=P.get('none', ('Qxiz',)))
    xi0, z0, Px, Pz = h.vec('xi0', lxi), h.vec('z0', lz), h.spd('Px', lxi), h.spd('Pz', lz)
    m = S.model('MixedNLGaussianSampledInitialGaussian', dict(xi0=xi0, z0=z0, Pxi0=Px, Pz0=Pz))
    T = k + 2
    u, y, t = h.vec('uu', T), h.vec('yy', T), h.vec('tt', T)
    past = [Pts(h, S, 'p%d' % i, N) for i in range(T)]
    traj = [F.TrajectoryStep(F.ParticleApproximation(p.part), np.arange(N)) for p in past]
    anc = np.array([h.choose(N, 'anc') for _ in range(M)], dtype=int)
    find = np.arange(M)
    if k > 0:
        src = past[k - 1]
        S.u, S.t = u[k - 1:k], t[k - 1:k]
        S.want = src.xi[anc]
        J = [S.joint(0, i, src.z[anc[i]], src.P[anc[i]]) for i in range(M)]
        for j in J:
            h.pd(j[1][:lxi, :lxi])
        a = dict(ptraj=traj[:k], anc=anc, future_trajs=None, find=find, yt=y, ut=u, tt=t, cur_ind=k)
        mean, cov, _ = h.law(lambda: m.propose_smooth(**a)[:, :lxi])
        h.eq(mean, h.mkarr([v for j in J for v in flat(h, j[0][:lxi])], (M * lxi,)), 'proposals are centred at the prediction from the ancestor')
        h.eq(cov, block(h, [j[1][:lxi, :lxi] for j in J]), 'proposals have the predictive covariance')
        q = m.propose_smooth(**a)
        h.same(np.shape(q), (M, lxi + lz + lz * lz), 'layout of the proposals')
        for i in range(M):
            zc, Pc = S.cond(0, i, src.z[anc[i]], src.P[anc[i]], q[i, :lxi])
            h.eq(q[i, lxi:], rows(h, [zc], [Pc])[0], 'linear states of a proposal are conditioned on its nonlinear state')
        prop = Pts(h, S, 'x')
        r = m.logp_proposal(prop.part.copy(), **a)
        for i in range(M):
            h.eq(r[i], lognorm(h, prop.xi[i].reshape((-1, 1)) - J[i][0][:lxi], J[i][1][:lxi, :lxi]), 'reported density of the proposal')
    else:
        a = dict(ptraj=None, anc=None, future_trajs=None, find=find, yt=y, ut=u, tt=t, cur_ind=0)
        mean, cov, _ = h.law(lambda: m.propose_smooth(**a)[:, :lxi])
        h.eq(mean, h.mkarr([xi0[i] for _ in range(M) for i in range(lxi)], (M * lxi,)), 'first states are proposed from the initial distribution')
        h.eq(cov, block(h, [Px] * M), 'first states are proposed from the initial distribution')
        prop = rows(h, h.vec('x', M, lxi), [z0] * M, [Pz] * M)
        r = m.logp_proposal(prop.copy(), **a)
        h.same(np.shape(r), (M,), 'one density per proposal')
        d = [r[i] - lognorm(h, prop[i, :lxi] - xi0, Px) for i in range(M)]
        other = m.logp_proposal(rows(h, [xi0] * M, [z0] * M, [Pz] * M), **a)
        d.append(other[0] - lognorm(h, xi0 - xi0, Px))
        for x in d[1:]:
            h.eq(x, d[0], 'reported density of the initial proposal, up to a common constant')
    for p, q in zip(past, traj):
        h.eq(q.pa.part, p.part, 'the filter particles are left alone')


for kw in [dict(N=2, lxi=1, lz=1), dict(N=2, lxi=2, lz=1), dict(N=1, lxi=1, lz=2), dict(N=2, lxi=1, lz=1, none=()), dict(N=1, lxi=2, lz=1, none=()), dict(N=1, lxi=1, lz=2, none=()), dict(N=2, lxi=1, lz=1, Nn=1),
           dict(N=2, lxi=1, lz=1, none=(), part=('Axi', 'fxi', 'Az', 'fz', 'Qxi', 'Qxiz', 'Qz')), dict(N=2, lxi=1, lz=1, none=(), part=('Qxi', 'Qz')), dict(N=2, lxi=1, lz=1, none=('fxi', 'fz', 'Qxiz'), part=('Axi',)), dict(N=2, lxi=1, lz=1, part=('fxi',)),
           dict(N=2, lxi=1, lz=1, part=('fz',)), dict(N=2, lxi=1, lz=1, part=('Az',)), dict(N=2, lxi=1, lz=1, part=('Qxi',)), dict(N=2, lxi=1, lz=1, part=('Qz',)), dict(N=3, lxi=1, lz=1, Nn=1)]:
    add('C32', label('density', kw), c32, kw, ('pure', 'ext') if kw['N'] == 2 else ('pure',))
for kw in [dict(N=1, lxi=2, lz=2), dict(N=2, lxi=2, lz=1, none=(), part=('Qxi', 'Qz', 'Axi'))]:
    add('C32', label('density', kw), c32, kw, tier='thorough', budget=600)
for kw in [dict(N=2, M=2, lxi=1, lz=1, k=1), dict(N=2, M=1, lxi=2, lz=1, k=2), dict(N=2, M=2, lxi=1, lz=1, k=2, none=(), part=('Axi', 'fxi', 'Az', 'Qxi', 'Qz')), dict(N=2, M=2, lxi=2, lz=1, k=0), dict(N=2, M=2, lxi=1, lz=2, k=0), dict(N=2, M=1, lxi=1, lz=1, k=3)]:
    add('C32', label('proposal', kw), c32_prop, kw)
info('C32', 'up to 3 particles, one or two nonlinear and linear states; every particle, next state, mean, covariance and matrix, constant or per particle, with and without correlated noise; domination shown for one nonlinear and one linear state',
     ['the user model answers by arbitrary tables and the arguments it is asked for are checked', 'sums of positive definite and positive semidefinite matrices are positive definite',
      'the density of an initial proposal is compared up to a constant, which cancels in the acceptance ratio'] + EXT)


# ------------------------------------------------------------------ C33
def c33(h):
    P = h.p
    M, lxi, lz, T, k = P['M'], P['lxi'], P['lz'], P['T'], P['k']
    F = h.mod(FILTER)
    S = Mix(h, M, lxi, lz, 1, part=P.get('part', ()), none=P.get('none', ('Qxiz',)))
    m = S.model()
    for _ in S.phases(m):
        a = Pts(h, S, 'a')
        u, y, t = h.vec('uu', T), h.vec('yy', T), h.vec('tt', T)
        S.u, S.t = u[k:k + 1], t[k:k + 1]
        S.want = a.xi
        x = a.part.copy()
        d = lxi + lz
        if k == T - 1:
            args = dict(part=x, ptraj=None, anc=None, future_trajs=None, find=None, ut=u, yt=y, tt=t, cur_ind=k)
            post = [(a.z[j], a.P[j]) for j in range(M)]
            keep = None
        else:
            Mf = P['Mf']
            nx = [h.vec('n%d' % i, Mf, d) for i in range(k + 1, T)]
            keep = [q.copy() for q in nx]
            fut = [F.TrajectoryStep(F.ParticleApproximation(q), np.arange(Mf)) for q in nx]
            find = np.array([h.choose(Mf, 'find') for _ in range(M)], dtype=int) if P.get('find') else np.arange(M)
            post = []
            for j in range(M):
                mu, Sg = S.joint(0, j, a.z[j], a.P[j])
                h.pd(Sg)
                A = S.A(0, j)
                G = dot(a.P[j], A.T, h.inv(Sg))
                post.append((a.z[j] + G.dot(nx[0][find[j]].reshape((d, 1)) - mu), a.P[j] - dot(G, A, a.P[j])))
            args = dict(part=x, ptraj=None, anc=None, future_trajs=fut, find=find, ut=u, yt=y, tt=t, cur_ind=k)
        mean, cov, nz = h.law(lambda: m.sample_smooth(**args))
        h.eq(mean, h.mkarr([v for j in range(M) for v in list(a.xi[j]) + list(flat(h, post[j][0]))], (M * d,)), 'sampled states: nonlinear state kept, linear state drawn around its conditional mean')
        C = h.zeros((M * d, M * d))
        for j in range(M):
            C[j * d + lxi:(j + 1) * d, j * d + lxi:(j + 1) * d] = post[j][1]
        h.eq(cov, C, 'sampled states: linear state drawn with its conditional covariance given the drawn future, independently')
        h.same(np.shape(m.sample_smooth(**args)), (M, d), 'layout of the sampled states')
        h.eq(x, a.part, 'the filter particles are left alone')
        if keep:
            for q, s in zip(keep, args['future_trajs']):
                h.eq(s.pa.part, q, 'the future trajectories are left alone')


def batch(h, S, j, xi, z0, P0, miss):
    """means and covariances of the linear states of trajectory j given its nonlinear states and the measurements"""
    T, lxi, lz, ly = S.T, S.d['lxi'], S.d['lz'], S.d['ly']
    n = T * lz
    mu, cov = h.zeros((n, 1)), h.zeros((n, n))
    mu[:lz], cov[:lz, :lz] = z0, P0
    nv = (T - 1) * lxi
    # joint of all linear states and of the nonlinear states 1..T-1
    ev, ce, cc = h.zeros((nv, 1)), h.zeros((nv, nv)), h.zeros((n, nv))
    for k in range(T - 1):
        a, b, c, e = k * lz, (k + 1) * lz, k * lxi, (k + 1) * lxi
        A, f, Q = S.A(k, j), S.f(k, j), S.Q(k, j)
        X, Z = A[:lxi], A[lxi:]
        mu[b:b + lz] = Z.dot(mu[a:b]) + f[lxi:]
        ev[c:e] = X.dot(mu[a:b]) + f[:lxi]
        # covariances with everything earlier
        if c:
            ce[c:e, :c] = X.dot(cc[a:b, :c])
            ce[:c, c:e] = ce[c:e, :c].T
            cc[b:b + lz, :c] = Z.dot(cc[a:b, :c])
        ce[c:e, c:e] = dot(X, cov[a:b, a:b], X.T) + Q[:lxi, :lxi]
        cc[:b, c:e] = cov[:b, a:b].dot(X.T)
        cov[b:b + lz, :b] = Z.dot(cov[a:b, :b])
        cov[:b, b:b + lz] = cov[b:b + lz, :b].T
        cov[b:b + lz, b:b + lz] = dot(Z, cov[a:b, a:b], Z.T) + Q[lxi:, lxi:]
        cc[b:b + lz, c:e] = dot(Z, cov[a:b, a:b], X.T) + Q[lxi:, :lxi]
        # (later rows get their covariance through Z in the next round)
    obs = [k for k in range(T) if k not in miss]
    ny = len(obs) * ly
    H, yv, R = h.zeros((ny, n)), h.zeros((ny, 1)), h.zeros((ny, ny))
    for q, k in enumerate(obs):
        H[q * ly:(q + 1) * ly, k * lz:(k + 1) * lz] = S.at('C', k, j)
        yv[q * ly:(q + 1) * ly] = S.y[k] - S.at('h', k, j)
        R[q * ly:(q + 1) * ly, q * ly:(q + 1) * ly] = S.at('R', k, j)
    m = nv + ny
    Y, E, V, D = h.zeros((m, 1)), h.zeros((m, 1)), h.zeros((m, m)), h.zeros((n, m))
    for k in range(T - 1):
        Y[k * lxi:(k + 1) * lxi] = xi[k + 1].reshape((lxi, 1))
    Y[nv:] = yv
    E[:nv], V[:nv, :nv], D[:, :nv] = ev, ce, cc
    if ny:
        E[nv:] = H.dot(mu)
        V[nv:, nv:] = dot(H, cov, H.T) + R
        V[nv:, :nv] = H.dot(cc)
        V[:nv, nv:] = V[nv:, :nv].T
        D[:, nv:] = cov.dot(H.T)
    h.pd(V)
    G = D.dot(h.inv(V))
    return mu + G.dot(Y - E), cov - G.dot(D.T)


def lemmas(h, S, j, xi, z0, P0, miss):
    """covariances met on the way are positive definite"""
    z, P = z0, P0
    lxi = S.d['lxi']
    for k in range(S.T):
        if k not in miss:
            _, V, z, P = S.meas(k, j, z, P)
            h.pd(V)
        if k + 1 < S.T:
            _, J = S.joint(k, j, z, P)
            h.pd(J[:lxi, :lxi])
            z, P = S.cond(k, j, z, P, xi[k + 1])
            h.pd(P)


def c33_post(h):
    P = h.p
    M, lxi, lz, T, miss = P['M'], P['lxi'], P['lz'], P['T'], P.get('miss', ())
    F = h.mod(FILTER)
    S = Mix(h, M, lxi, lz, 1, T=T, part=('Axi', 'fxi', 'Az', 'fz', 'Qxi', 'Qz', 'Qxiz', 'C', 'h', 'R'), none=P.get('none', ('Qxiz',)), tsym=False)
    z0, P0 = h.vec('z0', lz, 1), h.spd('P0', lz)
    m = S.model('MixedNLGaussianSampledInitialGaussian', dict(xi0=h.vec('xi0', lxi), z0=z0, Pxi0=h.spd('Px', lxi), Pz0=P0))
    xi = [h.vec('x%d' % k, M, lxi) for k in range(T)]
    for j in range(M):
        lemmas(h, S, j, [x[j] for x in xi], z0, P0, miss)
    ref = [batch(h, S, j, [x[j] for x in xi], z0, P0, miss) for j in range(M)]
    check = S.check

    def chk(particles, t, u=None, y=None, who=''):
        S.want = xi[int(t)]
        return check(particles, t, u, y)
    S.check = chk

    class St(object):
        pass
    st = St()
    traj = [rows(h, xi[k], h.vec('s%d' % k, M, lz)) for k in range(T)]
    keep = [q.copy() for q in traj]
    st.traj = np.empty((T,), dtype=object)
    for k in range(T):
        st.traj[k] = F.TrajectoryStep(F.ParticleApproximation(traj[k]), np.arange(M))
    st.u, st.t, st.y = [S.u[k] for k in range(T)], list(range(T)), [None if k in miss else S.y[k] for k in range(T)]
    r = m.post_smoothing(st)
    h.same(len(r), T, 'one step per time')
    for k in range(T):
        p = r[k].pa.part
        h.same(np.shape(p), (M, lxi + lz + 2 * lz * lz), 'nonlinear state, mean, covariance and cross covariance of every trajectory')
        a, b = k * lz, (k + 1) * lz
        for j in range(M):
            mu, cov = ref[j]
            h.eq(p[j, :lxi], xi[k][j], 'nonlinear trajectory is kept')
            h.eq(p[j, lxi:lxi + lz], mu[a:b, 0], 'smoothed linear mean given the nonlinear trajectory and all measurements')
            h.eq(p[j, lxi + lz:lxi + lz + lz * lz], cov[a:b, a:b].reshape((-1,)), 'smoothed linear covariance given the nonlinear trajectory and all measurements')
            if k + 1 < T:
                h.eq(p[j, lxi + lz + lz * lz:], cov[a:b, b:b + lz].reshape((-1,)), 'cross covariance with the next linear state')
    for k in range(T):
        h.eq(st.traj[k].pa.part, keep[k], 'the sampled trajectories are left alone')


for kw in [dict(M=2, lxi=1, lz=1, T=3, k=0, Mf=2, find=True), dict(M=2, lxi=2, lz=1, T=3, k=1, Mf=2), dict(M=1, lxi=1, lz=2, T=3, k=1, Mf=2, find=True), dict(M=2, lxi=1, lz=1, T=3, k=1, Mf=3, find=True, none=(), part=('Axi', 'fxi', 'Az', 'fz', 'Qxi', 'Qz', 'Qxiz')),
           dict(M=1, lxi=2, lz=1, T=2, k=0, Mf=1, none=()), dict(M=1, lxi=1, lz=2, T=2, k=0, Mf=1, none=()), dict(M=2, lxi=1, lz=1, T=2, k=0, Mf=2, none=(), part=('Az', 'fz')), dict(M=2, lxi=2, lz=2, T=3, k=2)]:
    add('C33', label('sample', kw), c33, kw, ('pure', 'ext') if kw['M'] == 2 else ('pure',))
for kw in [dict(M=2, lxi=1, lz=1, T=2), dict(M=1, lxi=1, lz=1, T=3, miss=(1,)), dict(M=2, lxi=1, lz=1, T=2, miss=(0,), none=()), dict(M=1, lxi=1, lz=1, T=2, none=()), dict(M=1, lxi=2, lz=1, T=2, miss=(1,)), dict(M=1, lxi=1, lz=2, T=2, miss=(0,)),
           dict(M=1, lxi=1, lz=1, T=3, miss=(0, 2), none=()), dict(M=2, lxi=1, lz=1, T=3, miss=(0, 1, 2))]:
    add('C33', label('post', kw), c33_post, kw)
for kw in [dict(M=1, lxi=1, lz=1, T=3), dict(M=1, lxi=1, lz=1, T=3, none=()), dict(M=1, lxi=1, lz=2, T=2, none=()), dict(M=1, lxi=1, lz=1, T=4, miss=(0, 1, 2))]:
    add('C33', label('post', kw), c33_post, kw, tier='thorough', budget=700)
info('C33', 'sampling: up to 2 trajectories, one or two states of each kind, any matching future; post-processing: 2-3 steps with and without missing measurements, every matrix different at every step and for every trajectory; with and without correlated noise',
     ['the user model answers by arbitrary tables and the arguments it is asked for are checked', 'sums of positive definite and positive semidefinite matrices, and conditional covariances, are positive definite'] + EXT)

# the model has been used with other parameter values before
ALLP = ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'C', 'h', 'R')
for kw in [dict(N=1, lxi=1, lz=1, ly=1, warm=True), dict(N=1, lxi=1, lz=1, ly=1, warm=True, none=()), dict(N=2, lxi=1, lz=1, ly=1, warm=True, part=ALLP), dict(N=1, lxi=1, lz=1, ly=1, warm=True, none=(), part=ALLP + ('Qxiz',))]:
    add('C31', label('step', kw), c31, kw, ('pure', 'ext'))
    add('C31', label('measure', kw), c31_meas, kw, ('pure', 'ext'))
    add('C32', label('density', kw), c32, dict(kw, dom=False), ('pure', 'ext'))
    add('C33', label('sample', kw), c33, dict(kw, M=kw['N'], Mf=1, T=2, k=0, find=True), ('pure', 'ext'))
for b in ('new', 'inplace'):
    add('C31', 'initial-before-' + b, c31_init, dict(N=2, lxi=2, lz=2, Pxi0='spd', Pz0='spd', before=b), ('pure', 'ext'))
