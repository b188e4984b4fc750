"""C45: complete runs of the simulator with the built-in models, from data to smoothed trajectories."""
import numpy as np
from engine.cases import add, info, label
from harness.e_kalman import flat, dot, lognorm
from harness.b_filters import check_ancestors, check_weights, decide_resampled
from harness.a_sampling import total
from harness.g_ltv import EXT
from harness.h_mlnlg import Mix, rows, batch
from harness.i_hier import sure, lin_batch
from harness.j_marg import future_joint
from harness.opaque import Opaque


def same(h, a, b):
    """the same numbers"""
    a, b = list(flat(h, a)), list(flat(h, b))
    if len(a) != len(b):
        return False
    if h.sym:
        return all(sure(h.eqc(x, y)) for x, y in zip(a, b))
    return all(abs(float(x) - float(y)) <= 1e-7 * (1 + abs(float(y))) for x, y in zip(a, b))


class Memo(object):
    """an arbitrary function of a state and the step: one fresh vector for every different argument"""

    def __init__(self, h, nm, n, m=1, new=None):
        self.h, self.nm, self.n, self.got = h, nm, n, []
        self.new = new or (lambda s: h.vec(s, n) if m is None else h.vec(s, n, m))

    def __call__(self, k, x):
        for q, y, v in self.got:
            if q == k and same(self.h, y, x):
                return v
        v = self.new('%s%d_' % (self.nm, len(self.got)))
        self.got.append((k, x.copy(), v))
        return v


class Rec(object):
    """what the model drew, and where the random numbers of the smoother start"""

    def __init__(self, h):
        self.h, self.noise, self.init, self.start, self.smooth, self.frozen = h, [], [], 0, [], False

    def wrap(self, cls):
        R, h = self, self.h

        class W(cls):
            def create_initial_estimate(self, N):
                r = cls.create_initial_estimate(self, N)
                R.init.append(r.copy())
                return r

            def sample_process_noise(self, particles, u, t):
                r = cls.sample_process_noise(self, particles, u, t)
                R.noise.append((int(t), particles.copy(), r.copy()))
                return r

            def measure(self, particles, y, t):
                if not R.frozen:
                    R.start = len(h.events)
                return cls.measure(self, particles, y, t)

            def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
                R.frozen = True
                r = cls.sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind)
                R.smooth.append((int(cur_ind), r.copy()))
                return r
        return W

    def take(self, k, par, v, used):
        """(k, par) was given this noise, and nobody else was"""
        for a, (q, ps, r) in enumerate(self.noise):
            if q != k:
                continue
            for b in range(len(ps)):
                if (a, b) not in used and same(self.h, ps[b][:len(par)], par) and same(self.h, r[b], v):
                    used.add((a, b))
                    return True
        return False


class Nlg(object):
    """nonlinear Gaussian model: f and g are arbitrary functions"""
    moments = False

    def __init__(self, h, rec, u, y):
        P = h.p
        lxi, ly = P.get('lxi', 1), P.get('ly', 1)
        self.h, self.lxi, self.ly, self.y, self.u = h, lxi, ly, y, u
        self.f, self.g = Memo(h, 'f', lxi, None), Memo(h, 'g', ly, None)
        self.Q, self.R = h.spd('Q', lxi), h.spd('R', ly)
        S = self

        class M(h.mod('pyparticleest.models.nlg').NonlinearGaussianInitialGaussian):
            def calc_f(self, particles, u, t):
                h.eq(u, S.u[int(t)], 'f is evaluated for the input of the step')
                return S.stack([S.f(int(t), p) for p in particles])

            def calc_g(self, particles, t):
                return S.stack([S.g(int(t), p) for p in particles])
        self.model = rec.wrap(M)(x0=h.vec('x0', lxi), Px0=h.spd('P0', lxi), Q=self.Q, R=self.R)

    def stack(self, vs):
        return self.h.mkarr([x for v in vs for x in flat(self.h, v)], (len(vs), len(list(flat(self.h, vs[0])))))

    # a state is a row
    def start(self, row):
        return row

    def xi(self, row):
        return row

    def row(self, s):
        return s

    def centre(self, k, s):
        return self.f(k, s)

    def advance(self, k, s, xi):
        return xi

    def lik(self, k, s):
        return lognorm(self.h, self.y[k] - self.g(k, s), self.R), s

    def first(self, k, s):
        """likelihood of the prediction without noise"""
        return lognorm(self.h, self.y[k + 1] - self.g(k + 1, self.f(k, s)), self.R)

    def trans(self, k, s, nxt, j):
        """density of the drawn state (row j) of the next step"""
        return lognorm(self.h, nxt[0][j] - self.f(k, s), self.Q)


class Mixd(object):
    """mixed model: the nonlinear functions are arbitrary functions of the nonlinear state, the rest is constant"""
    moments = True
    base = 'MixedNLGaussianSampledInitialGaussian'

    def __init__(self, h, rec, u, y):
        P = h.p
        self.h, self.lxi, self.lz, self.u, self.y, self.T = h, 1, P.get('lz', 1), u, y, P['T']
        lz = self.lz
        fn = P.get('fn', ('fxi', 'h'))
        none = P.get('none', ('Qxiz',))
        S = self

        class FM(Mix):
            cur = None

            def at(self, key, k, i):
                if key in fn:
                    return S.memo[key](k, self.cur)
                return Mix.at(self, key, 0, 0)
        self.M = FM(h, 1, 1, lz, 1, T=1, none=none)
        self.numbers()
        self.M.y = [q.reshape((-1, 1)) for q in y]
        dims = dict(Axi=(1, lz), fxi=(1, 1), Az=(lz, lz), fz=(lz, 1), C=(1, lz), h=(1, 1))
        self.memo = {k: Memo(h, k, *dims[k]) for k in fn}
        self.xi0, self.z0, self.Px = h.vec('xi0', 1), h.vec('z0', lz), h.spd('Px', 1)
        self.P0 = self.num('P0', lz, lz)

        def ans(key, k, particles):
            return [S.memo[key](k, p[:1]).copy() for p in particles] if key in fn else None

        class Mo(getattr(h.mod('pyparticleest.models.mlnlg'), self.base)):
            def get_nonlin_pred_dynamics(self, particles, u, t):
                h.eq(u, S.u[int(t)], 'the dynamics are evaluated for the input of the step')
                return ans('Axi', int(t), particles), ans('fxi', int(t), particles), None

            def get_lin_pred_dynamics(self, particles, u, t):
                h.eq(u, S.u[int(t)], 'the dynamics are evaluated for the input of the step')
                return ans('Az', int(t), particles), ans('fz', int(t), particles), None

            def get_meas_dynamics(self, particles, y, t):
                if y is None:
                    return (y, None, None, None)
                h.eq(flat(h, y), S.y[int(t)], 'the measurement of the step is used')
                return h.np.asarray(y).reshape((-1, 1)), ans('C', int(t), particles), ans('h', int(t), particles), None
        kw = {k: self.M.tab[k][0][0].copy() for k in ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'Qxiz', 'C', 'h', 'R') if k not in none and k not in fn}
        self.model = rec.wrap(Mo)(xi0=self.xi0, z0=self.z0.reshape((-1, 1)), Pxi0=self.Px, Pz0=self.P0, **kw)

    VALS = dict(Axi=(1, 2), Az=(3, 4), C=(3, 2), Qxi=(1, 3), Qz=(1, 5), R=(2, 3), P0=(5, 4), Qxiz=(1, 7), fz=(1, 9), fxi=(2, 7), h=(3, 5))

    def num(self, key, a, b):
        """a matrix of numbers"""
        h = self.h
        p, q = self.VALS[key]
        out = h.zeros((a, b))
        for i in range(a):
            for j in range(b):
                if key[0] in 'QRP' and key != 'Qxiz':
                    out[i, j] = h.f(p, q) if i == j else h.f(1, 3 * q)
                else:
                    out[i, j] = h.f(p * (1 + i) - j, q + j)
        return out

    def numbers(self):
        """constant matrices with numbers for entries: covariances do not depend on the path, so that densities stay quadratic"""
        if self.h.p.get('sym'):
            return
        for k, t in self.M.tab.items():
            if k not in self.M.none:
                a, b = np.shape(t[0][0])
                x = self.num('Qz' if k == 'Qc' else k, a, b)
                self.M.tab[k] = [[x]]
        if 'Qxiz' not in self.M.none:
            X = self.M.tab['Qxiz'][0][0]
            self.M.tab['Qz'] = [[self.M.tab['Qc'][0][0] + dot(X.T, self.h.inv(self.M.tab['Qxi'][0][0]), X)]]

    def xi(self, row):
        return row[:self.lxi]

    def row(self, s):
        return rows(self.h, [s[0]], [s[1]], [s[2]])[0]

    def begin(self, xi):
        return xi, self.z0.reshape((-1, 1)), self.P0

    def start(self, row):
        return self.begin(row[:self.lxi])

    def complete(self, k, s, x):
        return self.advance(k - 1, s, x[0]) if k else self.begin(x[0])

    def given(self, x):
        h = self.h
        return rows(h, x, [h.vec('cz', self.lz)], [h.spd('cP', self.lz)])

    def on(self, s):
        self.M.cur = s[0]
        return self.M

    def centre(self, k, s):
        return flat(self.h, self.on(s).joint(k, 0, s[1], s[2])[0][:self.lxi])

    def advance(self, k, s, xi):
        z, P = self.on(s).cond(k, 0, s[1], s[2], xi)
        self.h.pd(P)
        return xi, z, P

    def lik(self, k, s):
        e, V, z, P = self.on(s).meas(k, 0, s[1], s[2])
        self.h.pd(P)
        return lognorm(self.h, e, V), (s[0], z, P)

    def first(self, k, s):
        return self.lik(k + 1, self.advance(k, s, self.centre(k, s)))[0]

    def trans(self, k, s, nxt, j):
        m, V = self.on(s).joint(k, 0, s[1], s[2])
        self.h.pd(V)
        return lognorm(self.h, nxt[0][j][:self.lxi + self.lz].reshape((-1, 1)) - m, V)

    def along(self, xis):
        out = []
        for k, x in enumerate(xis):
            s = self.advance(k - 1, out[-1], x) if k else self.begin(x)
            if k or self.meas:
                s = self.lik(k, s)[1]
            out.append(s)
        return out

    def final(self, h, est, idx):
        """smoothed moments of the linear states given the nonlinear trajectory and every measurement"""
        S, T, lz, lxi = self, self.T, self.lz, self.lxi
        for j in range(len(est[0])):
            xi = [idx[k][j] for k in range(T)]

            class W(object):
                pass
            w = W()
            w.T, w.d, w.y = T, dict(lxi=lxi, lz=lz, ly=1), S.M.y

            def pick(fn):
                def g(*a):
                    k = a[-2]
                    S.M.cur = xi[k]
                    return fn(*a)
                return g
            w.at, w.A, w.f, w.Q = [pick(q) for q in (S.M.at, S.M.A, S.M.f, S.M.Q)]
            mu, cov = batch(h, w, 0, xi, S.z0.reshape((-1, 1)), S.P0, () if S.meas else (0,))
            for k in range(T):
                a, b = k * lz, (k + 1) * lz
                p = est[k][j]
                h.same(len(p), lxi + lz + 2 * lz * lz, 'smoothed states come with mean, covariance and cross covariance')
                h.eq(p[lxi:b - a + lxi], mu[a:b, 0], 'smoothed linear mean given the nonlinear trajectory and all measurements')
                h.eq(p[lxi + lz:lxi + lz + lz * lz], cov[a:b, a:b].reshape((-1,)), 'smoothed linear covariance')
                if k + 1 < T:
                    h.eq(p[lxi + lz + lz * lz:], cov[a:b, b:b + lz].reshape((-1,)), 'cross covariance with the next linear state')


class Margd(Mixd):
    """the same with the linear states integrated out in the smoother: the future is that of the nonlinear states and of the measurements"""
    base = 'MixedNLGaussianMarginalizedInitialGaussian'

    def trans(self, k, s, nxt, j):
        S = self

        class W(object):
            pass
        w = W()
        xi = [s[0]] + [q[j][:S.lxi] for q in nxt]
        n = w.T = len(xi)
        w.d, w.y = dict(lxi=S.lxi, lz=S.lz), S.M.y[k:]

        def pick(fn):
            def g(*a):
                q, i = a[-2:]
                S.M.cur = xi[q]
                return fn(*a[:-2], q + k, i)
            return g
        w.at, w.A, w.f, w.Q = [pick(q) for q in (S.M.at, S.M.A, S.M.f, S.M.Q)]
        e, V = future_joint(self.h, w, 0, s[1], s[2], [[x] for x in xi], ())
        self.h.pd(V)
        return lognorm(self.h, e, V)


class Hierd(object):
    """hierarchical model: nonlinear functions, offsets and the initial linear state are arbitrary functions of the nonlinear state"""
    moments = True

    def __init__(self, h, rec, u, y):
        P = h.p
        self.h, self.lxi, self.lz, self.u, self.y, self.T = h, 1, 1, u, y, P['T']
        S = self
        n = lambda a, b=1: h.mkarr([h.f(a, b)], (1, 1))
        self.con = dict(Az=n(3, 4), Qz=n(1, 5), C=n(3, 2), R=n(2, 3))
        self.P0, self.Qx, self.Ry = n(5, 4), n(1, 3), n(4, 3)
        self.memo = {k: Memo(h, k, 1, 1) for k in ('fz', 'h')}
        self.f, self.g, self.z0 = Memo(h, 'f', 1, None), Memo(h, 'g', 1, None), Memo(h, 'z0', 1, 1)

        class M(h.mod('pyparticleest.models.hierarchial').HierarchicalBase):
            def create_initial_estimate(self, N):
                x = h.zeros((N, 3))
                x[:, 0] = h.rnd.normal(size=(N,))
                for i in range(N):
                    x[i, 1], x[i, 2] = S.z0(0, x[i, :1])[0, 0], S.P0[0, 0]
                return x

            def get_rb_initial(self, xi):
                return h.mkarr([S.z0(0, x)[0, 0] for x in xi], (len(xi), 1, 1)), h.mkarr([S.P0[0, 0]] * len(xi), (len(xi), 1, 1))

            def sample_process_noise(self, particles, u, t):
                h.eq(u, S.u[int(t)], 'noise is drawn for the input of the step')
                return h.rnd.normal(size=(len(particles), 1))

            def calc_xi_next(self, particles, u, t, noise):
                h.eq(u, S.u[int(t)], 'the dynamics are evaluated for the input of the step')
                return h.mkarr([(S.f(int(t), p[:1]) + v)[0] for p, v in zip(particles, noise)], (len(particles), 1))

            def logp_xnext_xi(self, particles, next_xi, u, t):
                h.eq(u, S.u[int(t)], 'the density is evaluated for the input of the step')
                return h.mkarr([lognorm(h, n - S.f(int(t), p[:1]), S.Qx) for p, n in zip(particles, next_xi)], (len(particles),))

            def measure_nonlin(self, particles, y, t):
                h.eq(y, S.y[int(t)], 'the measurement of the step is used')
                return h.mkarr([S.like(int(t), p[:1]) for p in particles], (len(particles),))

            def get_lin_pred_dynamics(self, particles, u, t):
                h.eq(u, S.u[int(t)], 'the dynamics are evaluated for the input of the step')
                return None, [S.memo['fz'](int(t), p[:1]).copy() for p in particles], None

            def get_lin_meas_dynamics(self, particles, y, t):
                h.eq(y, S.y[int(t)], 'the measurement of the step is used')
                return y[1:].reshape((-1, 1)), None, [S.memo['h'](int(t), p[:1]).copy() for p in particles], None
        self.model = rec.wrap(M)(len_xi=1, len_z=1, **{k: v.copy() for k, v in self.con.items()})

    def like(self, k, xi):
        return lognorm(self.h, self.y[k][:1] - self.g(k, xi), self.Ry)

    def at(self, key, k, xi):
        return self.memo[key](k, xi) if key in self.memo else self.con[key]

    def xi(self, row):
        return row[:1]

    def row(self, s):
        return rows(self.h, [s[0]], [s[1]], [s[2]])[0]

    def start(self, row):
        return row[:1], self.z0(0, row[:1]), self.P0

    def centre(self, k, s):
        return self.f(k, s[0])

    def pred(self, k, s):
        A = self.con['Az']
        P = dot(A, s[2], A.T) + self.con['Qz']
        self.h.pd(P)
        return A.dot(s[1]) + self.at('fz', k, s[0]), P

    def advance(self, k, s, xi):
        return (xi,) + self.pred(k, s)

    def lik(self, k, s):
        C = self.con['C']
        e = self.y[k][1:].reshape((-1, 1)) - self.at('h', k, s[0]) - C.dot(s[1])
        V = dot(C, s[2], C.T) + self.con['R']
        K = dot(s[2], C.T, self.h.inv(V))
        P = s[2] - dot(K, C, s[2])
        self.h.pd(P)
        return self.like(k, s[0]) + lognorm(self.h, e, V), (s[0], s[1] + K.dot(e), P)

    def trans(self, k, s, nxt, j):
        m, V = self.pred(k, s)
        n = nxt[0][j]
        return lognorm(self.h, n[:1] - self.f(k, s[0]), self.Qx) + lognorm(self.h, n[1:2].reshape((1, 1)) - m, V)

    def final(self, h, est, idx):
        """smoothed moments of the linear states given the nonlinear trajectory and every measurement"""
        for j in range(len(est[0])):
            xi = [idx[k][j] for k in range(self.T)]

            class W(object):
                pass
            w = W()
            w.T, w.d, w.y = self.T, dict(lz=1, ly=1), [y[1:].reshape((1, 1)) for y in self.y]
            w.at = lambda key, k, i: self.at(key, k, xi[k])
            mu, cov = lin_batch(h, w, 0, self.z0(0, xi[0]), self.P0, () if self.meas else (0,))
            for k in range(self.T):
                p = est[k][j]
                h.same(len(p), 4, 'smoothed states come with mean, covariance and cross covariance')
                h.eq(p[1], mu[k, 0], 'smoothed linear mean given the nonlinear trajectory and all measurements')
                h.eq(p[2], cov[k, k], 'smoothed linear covariance')
                if k + 1 < self.T:
                    h.eq(p[3], cov[k, k + 1], 'cross covariance with the next linear state')


def norm(h, lw):
    """weights from log weights, relative to the largest"""
    for i in range(len(lw)):
        for j in range(i):
            if not (sure(h.eqc(lw[i], lw[j])) if h.sym else lw[i] == lw[j]):
                h.assume(h.ne(lw[i], lw[j]))    # ties have probability zero
    mx = h.maxof(lw) if len(lw) > 1 else lw[0]
    return [h.exp(x - mx) for x in lw]


def accept(h, u, d):
    """Metropolis-Hastings: with probability min(1, exp(d))"""
    return h.less(h.const(0), d) or h.less(h.log(u), d)


def filtered(h, S, rec, pt, T, N, filt, meas, ctraj=None):
    """check a filter run; updated states and normalised log weights of every step"""
    ref, lw, used = [], [], set()
    cond = ctraj is not None
    for k in range(T):
        st = pt[k]
        h.same(np.shape(st.pa.w), (N,), 'one weight per particle')
        h.same(len(st.pa.part), N, 'as many particles as requested')
        anc = [int(a) for a in st.ancestors]
        h.same(len(anc), N, 'one ancestor per particle')
        h.same(all(0 <= a < N for a in anc), True, 'ancestors are valid')
        n = N - 1 if cond else N
        now, base, resampled = [], [h.const(0)] * N, False
        if k == 0:
            h.same(anc, list(range(N)), 'initial ancestors are the particles themselves')
            draws = [r for q in rec.init[:1] for r in q]
            for i in range(N):
                if i < n:
                    h.true(any(same(h, S.xi(d), S.xi(st.pa.part[i])) for d in draws), 'initial particles are drawn from the initial distribution')
                now.append(S.start(st.pa.part[i]) if i < n else S.complete(0, None, ctraj[0]))
        else:
            resampled = bool(rec.resampled[k - 1]) or cond
            p = norm(h, lw[k - 1])
            if filt == 'APF':
                A = [S.first(k - 1, s) for s in ref[k - 1]]
                p = norm(h, [x + a for x, a in zip(lw[k - 1], A)])
            if cond:
                check_ancestors(h, anc[:-1], p, N, N - 1)
                if filt == 'CPF':
                    h.same(anc[-1], N - 1, 'the conditioned particle descends from itself')
            elif resampled:
                check_ancestors(h, anc, p, N, N)
            else:
                h.same(anc, list(range(N)), 'without resampling particle i descends from particle i')
                base = lw[k - 1]
            if not cond and h.p['res'] != 0:
                decide_resampled(h, resampled, p, h.p['res'], N)
            for i in range(N):
                s, q = ref[k - 1][anc[i]], st.pa.part[i]
                if i < n:
                    v = S.xi(q) - S.centre(k - 1, s)
                    h.true(rec.take(k - 1, S.xi(S.row(s)), v, used), 'particles follow the dynamics of the ancestor they report, with noise of their own')
                    now.append(S.advance(k - 1, s, S.xi(q)))
                else:
                    now.append(S.complete(k, s, ctraj[k]))
        out, w = [], []
        for i in range(N):
            l, s = S.lik(k, now[i]) if k or meas else (h.const(0), now[i])
            if k and filt == 'APF' and resampled:
                l = l - A[anc[i]]
            out.append(s)
            w.append(base[i] + l)
            h.eq(st.pa.part[i], S.row(s), 'particles carry the exact state given their history')
        if k == 0 and not meas:
            for i in range(N):
                h.eq(st.pa.w[i], -h.log(h.const(N)), 'initial particles are uniformly weighted')
        else:
            check_weights(h, st.pa.w, w, 'weights are the likelihoods of the particles times the weights of their ancestors')
        ref.append(out)
        # from here on the weights of the code, which are those above up to a common factor
        lw.append([st.pa.w[i] for i in range(N)])
    return ref, lw


def smoothed(h, S, rec, pt, ref, lw, T, M, method, R):
    """indices drawn by a backward simulator, and the drawn states of every step"""
    tape = h.tape(rec.start)
    drawn = {k: [r for q, r in rec.smooth if q == k] for k in range(T)}
    ind = tape.sample(norm(h, lw[T - 1]), M)
    if method == 'mhips':
        return ips(h, S, rec, pt, ref, T, M, R, tape, ind)
    idx = [None] * T
    for k in reversed(range(T)):
        if k < T - 1:
            nx = [drawn[q][0] for q in range(k + 1, T)]
            dens = lambda c, j: S.trans(k, ref[k][c], nx, j)
            if method == 'ancestor':
                ind = [int(pt[k + 1].ancestors[i]) for i in ind]
            elif method == 'full':
                ind = [tape.sample(norm(h, [w + dens(c, j) for c, w in enumerate(lw[k])]), 1)[0] for j in range(M)]
            elif method == 'mcmc':
                cur = [int(pt[k + 1].ancestors[i]) for i in ind]
                for _ in range(R):
                    prop = tape.sample(norm(h, lw[k]), M)
                    prop = [prop[q] for q in tape.perm(M)]
                    us = [tape.u() for _ in range(M)]
                    cur = [b if accept(h, u, dens(b, j) - dens(a, j)) else a for j, (a, b, u) in enumerate(zip(cur, prop, us))]
                ind = cur
        idx[k] = ind
        h.same(len(drawn[k]), 1, 'states are drawn once per step')
        for j in range(M):
            h.eq(S.xi(drawn[k][0][j]), S.xi(S.row(ref[k][ind[j]])), 'the drawn trajectories follow the chosen particles')
    return [[S.xi(S.row(ref[k][i])) for i in idx[k]] for k in range(T)]


def ips(h, S, rec, pt, ref, T, M, R, tape, ind):
    """Metropolis-Hastings improvement of the ancestral trajectories"""
    used = set()
    cur = [None] * T
    for k in reversed(range(T)):
        cur[k] = [S.xi(S.row(ref[k][i])) for i in ind]
        if k:
            ind = [int(pt[k].ancestors[i]) for i in ind]
    seen = {k: [r for q, r in rec.smooth if q == k] for k in range(T)}
    props = {k: [r for q, _, r in rec.noise if q == k - 1][1:] for k in range(1, T)}
    for r in range(R):
        states = [S.along([c[j] for c in cur]) for j in range(M)]
        new = [None] * T
        for k in reversed(range(T)):
            us = [tape.u() for _ in range(M)]
            new[k] = []
            for j in range(M):
                src = states[j][k - 1] if k else None
                if k:
                    xp = S.centre(k - 1, src) + props[k][r][j]
                else:
                    xp = S.xi(rec.init[1 + r][j])
                out = []
                for x in (xp, cur[k][j]):
                    s = S.advance(k - 1, src, x) if k else S.begin(x)
                    l, s = S.lik(k, s) if k or S.meas else (h.const(0), s)
                    if k < T - 1:
                        nx = [seen[q][len(seen[q]) - R + r] for q in range(k + 1, T)]
                        l = l + S.trans(k, s, nx, j)
                    out.append(l)
                new[k].append(xp if h.less(h.log(us[j]), out[0] - out[1]) else cur[k][j])
        cur = new
    return cur


def c45(h):
    P = h.p
    N, M, T, filt, method = P['N'], P.get('M', 0), P['T'], P['filter'], P.get('smoother')
    meas = P.get('meas', True)
    L = T if meas else T - 1
    rec = Rec(h)
    F, Z = h.mod('pyparticleest.filter'), h.mod('pyparticleest.simulator')
    ly = P.get('ly', 1)
    u = h.vec('u', T)
    yv = [h.vec('y%d' % k, ly) for k in range(T)]
    S = MODELS[P['model']](h, rec, u, yv)
    S.meas = meas
    if P.get('op'):
        # densities as free numbers, the same number in the code and in the reference for the same density
        o = Opaque(h)
        o.wrap(S.model)
        lik, first, trans = S.lik, getattr(S, 'first', None), S.trans
        S.lik = lambda *a: (lambda r: (o(r[0]), r[1]))(lik(*a))
        S.first = lambda *a: o(first(*a))
        S.trans = lambda *a: o(trans(*a))
    old = F.ParticleTrajectory.forward

    def fwd(self, *a, **k):
        r = old(self, *a, **k)
        rec.resampled.append(bool(r))
        return r
    rec.resampled = []
    F.ParticleTrajectory.forward = fwd
    opts, ctraj = None, None
    if filt.startswith('CPF'):
        ctraj = [h.vec('c%d' % k, 1, S.lxi) for k in range(T)]
        c = np.empty((T,), dtype=object)
        for k in range(T):
            c[k] = F.TrajectoryStep(F.ParticleApproximation(S.given(ctraj[k])), np.arange(1))
        opts = {'cond_traj': c}
    try:
        s = Z.Simulator(S.model, u, yv if meas else yv[1:])
        R = P.get('R', 1)
        kw = dict(smoother=method, smoother_options={'R': R}) if method else dict(smoother=None)
        s.simulate(N, M, filter=filt, filter_options=opts, res=P['res'], meas_first=meas, **kw)
    finally:
        F.ParticleTrajectory.forward = old
    h.same(len(s.pt), T, 'one step per time instant')
    ref, lw = filtered(h, S, rec, s.pt, T, N, filt, meas, ctraj)
    if method:
        idx = smoothed(h, S, rec, s.pt, ref, lw, T, M, method, R)
        est = s.get_smoothed_estimates()
        h.same((len(est), len(est[0])), (T, M), 'smoothed trajectories of the whole run')
        for k in range(T):
            for j in range(M):
                h.eq(S.xi(est[k][j]), idx[k][j], 'smoothed states are those of the chosen particles')
        if S.moments:
            S.final(h, est, idx)


MODELS = dict(nlg=Nlg, mixed=Mixd, marg=Margd, hier=Hierd)
for nm in ('begin',):
    setattr(Nlg, nm, lambda self, x: x)
Nlg.along = lambda self, xs: list(xs)
Nlg.given = lambda self, x: x.copy()
Nlg.complete = lambda self, k, s, x: x[0]

for kw in [dict(filter='PF', N=2, T=3, res=0), dict(filter='PF', N=2, T=3, res=2.0), dict(filter='APF', N=2, T=3, res=0, meas=False), dict(filter='PF', N=2, T=2, lxi=2, res=0),
           dict(filter='CPF', N=2, T=2, res=1.0), dict(filter='CPFAS', N=2, T=2, res=1.0),
           dict(filter='PF', N=2, M=2, T=2, res=0, smoother='full'), dict(filter='PF', N=2, M=2, T=2, res=0, smoother='mcmc'), dict(filter='PF', N=2, M=2, T=3, res=0, smoother='ancestor', meas=False), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='mhips')]:
    add('C45', label('nlg', kw), c45, dict(kw, model='nlg'))
for kw in [dict(filter='PF', N=2, T=2, res=2.0), dict(filter='PF', N=2, T=3, res=0, meas=False), dict(filter='APF', N=2, T=2, res=0), dict(filter='PF', N=2, T=2, res=0, none=()),
           dict(filter='PF', N=2, M=1, T=2, res=0, smoother='full'), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='mcmc'), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='ancestor'), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='mhips'),
           dict(filter='PF', N=1, M=1, T=2, res=0, smoother='ancestor', none=(), sym=True)]:
    add('C45', label('mixed', kw), c45, dict(kw, model='mixed'))
for kw in [dict(filter='APF', N=2, T=2, res=2.0), dict(filter='PF', N=2, M=1, T=3, res=0, smoother='mcmc', R=2),
           dict(filter='PF', N=2, M=1, T=3, res=0, smoother='mhips'), dict(filter='PF', N=2, M=2, T=2, res=2.0, smoother='full'), dict(filter='CPFAS', N=3, T=2, res=1.0), dict(filter='CPFAS', N=2, M=1, T=2, res=1.0, smoother='full')]:
    add('C45', label('nlg', kw), c45, dict(kw, model='nlg'), tier='thorough', budget=700)
for kw in [dict(filter='PF', N=2, M=2, T=2, res=0, smoother='full'), dict(filter='PF', N=2, M=1, T=3, res=0, smoother='ancestor'), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='full', meas=False), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='ancestor', none=()), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='full', lz=2)]:
    add('C45', label('mixed', kw), c45, dict(kw, model='mixed'), tier='thorough', budget=700)
for model, kw in (('mixed', dict(filter='APF', N=2, T=2, res=2.0)), ('nlg', dict(filter='APF', N=2, T=3, res=2.0)), ('mixed', dict(filter='PF', N=2, M=2, T=2, res=0, smoother='full')), ('mixed', dict(filter='PF', N=2, M=1, T=3, res=0, smoother='full')),
                  ('mixed', dict(filter='PF', N=2, M=1, T=3, res=2.0, smoother='ancestor'))):
    add('C45', label(model, dict(kw, op=True)), c45, dict(kw, model=model, op=True))
for kw in [dict(filter='PF', N=2, M=1, T=2, res=0, smoother='full'), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='mcmc', meas=False), dict(filter='PF', N=1, M=1, T=3, res=0, smoother='ancestor'), dict(filter='APF', N=2, T=2, res=0), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='ancestor', none=()), dict(filter='PF', N=1, M=1, T=3, res=0, smoother='full', meas=False)]:
    add('C45', label('marg', kw), c45, dict(kw, model='marg'))
for kw in [dict(filter='PF', N=2, T=3, res=2.0, op=True), dict(filter='PF', N=2, M=1, T=2, res=2.0, smoother='full', meas=False), dict(filter='PF', N=2, M=2, T=2, res=0, smoother='full', op=True), dict(filter='PF', N=2, M=1, T=2, res=0, smoother='mcmc', meas=False), dict(filter='PF', N=1, M=1, T=3, res=0, smoother='ancestor')]:
    add('C45', label('hier', kw), c45, dict(kw, model='hier', ly=2))
info('C45', 'whole runs of Simulator over 2-3 steps, 2-3 particles, 1-2 smoothed trajectories; nonlinear Gaussian models with arbitrary functions f and g (one fresh value per distinct argument), symbolic Q, R and initial distribution; mixed models (sampled and marginalised) with arbitrary functions of the nonlinear state (fxi, h) and hierarchical models with arbitrary nonlinear functions, offsets and initial linear states, the other matrices rational numbers (one case entirely symbolic), states of dimension 1 (thorough: 2); ties between weights excluded (probability zero)', EXT)
