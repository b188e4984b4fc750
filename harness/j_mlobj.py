"""C35: expected complete-data log-likelihood of the mixed model and its gradient."""
import numpy as np
from engine.cases import add, info, label
from harness.e_kalman import flat, dot, expected_l2
from harness.g_ltv import EXT, gauss, consts, total
from harness.h_mlnlg import Mix, rows, FILTER, ML
from harness.l_paramest import make_straj, Result

PI = 'pyparticleest.paramest.interfaces'
SPD = ('Q', 'R', 'P', 'X')
BOTH_ = ('pure', 'ext')


class Sm(object):
    """smoothed nonlinear states and moments of the linear ones for N trajectories"""

    def __init__(self, h, nm, N, lxi, lz):
        self.xi, self.z = h.vec('xi' + nm, N, lxi), h.vec('z' + nm, N, lz, 1)
        self.P, self.c = h.spdn('P' + nm, N, lz), h.vec('c' + nm, N, lz, lz)
        self.part = rows(h, self.xi, self.z, self.P, self.c)


class Obj(Mix):
    """mixed model with an initial law, evaluated on smoothed moments; reference values of the three terms"""

    def __init__(self, h, N, lxi, lz, ly, T, part=(), none=('Qxiz',), L=0, dep=(), rb=False, raw=False, nm=''):
        Mix.__init__(self, h, N, lxi, lz, ly, T, part, none, tsym=False)
        self.t = list(range(T))
        self.L, self.dep, self.rb, self.raw = L, dep, rb, raw
        self.initial(nm)
        if self.warm:
            self.trueini = (self.xi0, self.Px, self.z0, self.Pz)
            self.initial('old' + nm)
        d = lxi + lz
        self.g = {}
        for k, sh in dict(A=(d, lz), f=(d, 1), Q=(d, d), C=(ly, lz), h=(ly, 1), R=(ly, ly), z=(lz, 1), P=(lz, lz), x=(lxi, 1), X=(lxi, lxi)).items():
            if k not in dep:
                self.g[k] = None
                continue
            same = k in 'zPxX' and not (rb and k in 'zP')
            out = []
            for i in range(N):
                x = h.vec('d' + k if same else 'd%s%d' % (k, i), L, *sh)
                out += [v for j in range(L) for v in flat(h, x[j] + x[j].T if k in SPD else x[j])]
            self.g[k] = h.mkarr(out, (N, L) + sh)
        self.th = h.vec('th', L) if L else None

    def initial(self, nm):
        h, N, lxi, lz = self.h, self.N, self.d['lxi'], self.d['lz']
        self.xi0, self.Px = h.vec('xi0' + nm, lxi, 1), h.spd('Px' + nm, lxi)
        if self.rb:
            self.z0, self.Pz = h.vec('z0' + nm, N, lz, 1), h.spdn('Pz' + nm, N, lz)
        else:
            z, P = h.vec('z0' + nm, lz, 1), h.spd('Pz' + nm, lz)
            self.z0, self.Pz = [z] * N, [P] * N

    def settle(self, m):
        m.set_dynamics(**self.con(*self.DYN))
        self.lem()
        self.xi0, self.Px, self.z0, self.Pz = self.trueini
        if self.h.p['warm'] == 'inplace':
            m.xi0[...], m.Pxi0[...], m.z0[...], m.Pz0[...] = self.xi0, self.Px, self.z0[0], self.Pz[0]
        else:
            m.xi0, m.Pxi0, m.z0, m.Pz0 = self.xi0.copy(), self.Px.copy(), self.z0[0].copy(), self.Pz[0].copy()

    def build(self, mixins=()):
        S, h, N = self, self.h, self.N
        ctor = dict(xi0=S.xi0.copy(), Pxi0=S.Px.copy(), z0=S.z0[0].copy(), Pz0=S.Pz[0].copy())
        if S.L:
            ctor['params'] = S.th.copy()
        base = 'MixedNLGaussianSampledInitialGaussian'

        class X(object):
            def get_meas_dynamics(self, particles, y, t):
                k = S.check(particles, t, y=y)
                yy = y if S.raw else h.np.asarray(y).reshape((-1, 1))
                return (yy,) + tuple(S.answer(x, k, len(particles)) for x in ('C', 'h', 'R'))

            def get_pred_dynamics_grad(self, particles, u, t):
                S.check(particles, t, u)
                if not set('AfQ') & set(S.dep):
                    return super(X, self).get_pred_dynamics_grad(particles, u, t)
                return tuple(S.gr(x) for x in 'AfQ')

            def get_meas_dynamics_grad(self, particles, y, t):
                S.check(particles, t, y=y)
                if not set('ChR') & set(S.dep):
                    return super(X, self).get_meas_dynamics_grad(particles, y, t)
                return tuple(S.gr(x) for x in 'ChR')

            def get_rb_initial(self, xi):
                if not S.rb:
                    return super(X, self).get_rb_initial(xi)
                h.eq(flat(h, xi), flat(h, S.want), 'initial linear states are asked for the initial nonlinear ones')
                return S.z0.copy(), S.Pz.copy()

            def get_rb_initial_grad(self, xi):
                if S.g['z'] is None and S.g['P'] is None:
                    return super(X, self).get_rb_initial_grad(xi)
                lz = S.d['lz']
                return tuple(S.gr(k) if S.g[k] is not None else h.zeros((N, S.L) + sh) for k, sh in (('z', (lz, 1)), ('P', (lz, lz))))

            def get_xi_intitial_grad(self, n):
                if S.g['x'] is None and S.g['X'] is None:
                    return super(X, self).get_xi_intitial_grad(n)
                lxi = S.d['lxi']
                return tuple(S.gr(k) if S.g[k] is not None else h.zeros((N, S.L) + sh) for k, sh in (('x', (lxi, 1)), ('X', (lxi, lxi))))
        m = Mix.model(self, base, ctor)         # the tables answer for the matrices
        M = type(m)
        C = type('Model', (X,) + (M,) + tuple(mixins), {})
        # methods of X come first; get_meas_dynamics of M is replaced by that of X
        kw = self.con('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'Qxiz', 'C', 'h', 'R')
        kw.update(ctor)
        return C(**kw)

    def gr(self, k):
        return None if self.g[k] is None else self.g[k].copy()

    def yk(self, k):
        """measurement as handed over by the caller"""
        return self.y[k].reshape((-1,)).copy() if self.raw else self.y[k].copy()

    # reference terms, with every matrix moved by t times its derivative with respect to parameter j
    def mv(self, k, i, x, t, j):
        if t is None or self.g[k] is None:
            return x
        x = x + self.g[k][i, j] * t
        if k in SPD:
            self.h.pd(x)
        return x

    def x0(self, a, t=None, j=None):
        h, s = self.h, self.h.const(0)
        for i in range(self.N):
            e = a.xi[i].reshape((-1, 1)) - self.mv('x', i, self.xi0, t, j)
            s = s + gauss(h, self.mv('X', i, self.Px, t, j), e.dot(e.T))
            e = a.z[i] - self.mv('z', i, self.z0[i], t, j)
            s = s + gauss(h, self.mv('P', i, self.Pz[i], t, j), e.dot(e.T) + a.P[i])
        return s

    def xn(self, k, a, b, t=None, j=None):
        h, s = self.h, self.h.const(0)
        for i in range(self.N):
            A, f, Q = self.mv('A', i, self.A(k, i), t, j), self.mv('f', i, self.f(k, i), t, j), self.mv('Q', i, self.Q(k, i), t, j)
            e = self.stack(b.xi[i].reshape((-1, 1)), b.z[i]) - A.dot(a.z[i]) - f
            s = s + gauss(h, Q, expected_l2(h, self.d['lxi'], e, A, a.P[i], b.P[i], a.c[i]))
        return s

    def yt(self, k, a, t=None, j=None):
        h, s = self.h, self.h.const(0)
        for i in range(self.N):
            C, hh, R = self.mv('C', i, self.at('C', k, i), t, j), self.mv('h', i, self.at('h', k, i), t, j), self.mv('R', i, self.at('R', k, i), t, j)
            e = self.y[k] - C.dot(a.z[i]) - hh
            s = s + gauss(h, R, e.dot(e.T) + dot(C, a.P[i], C.T))
        return s

    def lem(self):
        h = self.h
        for k in range(self.T):
            for i in range(self.N):
                h.pd(self.Q(k, i))


def c35_value(h):
    P = h.p
    N, lxi, lz, ly = P['N'], P['lxi'], P['lz'], P['ly']
    dx, dn, dy = [], [], []
    for nm in ('', 'o'):
        S = Obj(h, N, lxi, lz, ly, 2, P.get('part', ()), P.get('none', ('Qxiz',)), rb=P.get('rb', False), raw=P.get('raw', False), nm=nm)
        S.lem()
        m = S.build()
        for k in (k for _ in S.phases(m) for k in range(2)):
            a, b = Sm(h, 'a%s%d' % (nm, k), N, lxi, lz), Sm(h, 'b%s%d' % (nm, k), N, lxi, lz)
            p, q = a.part.copy(), b.part.copy()
            S.want = a.xi
            r = m.eval_logp_x0(p, S.t[k])
            dx.append(total(h, r) - S.x0(a))
            r = m.eval_logp_xnext(p, q, S.u[k], S.t[k])
            dn.append(total(h, r) - S.xn(k, a, b))
            y = S.yk(k)
            r = m.eval_logp_y(p, y, S.t[k])
            dy.append(total(h, r) - S.yt(k, a))
            h.eq(p, a.part, 'the trajectories are left alone')
            h.eq(q, b.part, 'the trajectories are left alone')
            h.eq(y, S.yk(k), 'the measurement is left alone')
    consts(h, dx, 'initial term is the expected log-density, up to a constant')
    consts(h, dn, 'transition term is the expected log-density, up to a constant')
    consts(h, dy, 'measurement term is the expected log-density, up to a constant')


def c35_grad(h):
    P = h.p
    N, lxi, lz, ly, L, dep = P['N'], P['lxi'], P['lz'], P['ly'], P['L'], P['dep']
    S = Obj(h, N, lxi, lz, ly, 1, P.get('part', ()), P.get('none', ('Qxiz',)), L, dep, P.get('rb', False), P.get('raw', False))
    S.lem()
    m = S.build()
    for _ in S.phases(m):
        a, b = Sm(h, 'a', N, lxi, lz), Sm(h, 'b', N, lxi, lz)
        p, q = a.part.copy(), b.part.copy()
        S.want = a.xi
        terms = dict(initial=('zPxX', lambda: m.eval_logp_x0_val_grad(p, S.t[0]), lambda: m.eval_logp_x0(p, S.t[0]), lambda *t: S.x0(a, *t)),
                     transition=('AfQ', lambda: m.eval_logp_xnext_val_grad(p, q, S.u[0], S.t[0]), lambda: m.eval_logp_xnext(p, q, S.u[0], S.t[0]), lambda *t: S.xn(0, a, b, *t)),
                     measurement=('ChR', lambda: m.eval_logp_y_val_grad(p, S.yk(0), S.t[0]), lambda: m.eval_logp_y(p, S.yk(0), S.t[0]), lambda *t: S.yt(0, a, *t)))
        for what, (keys, res, ref, fn) in terms.items():
            if not P.get('allterms') and not set(keys) & set(dep):
                continue
            r = res()
            h.same(len(r), 2, 'value and gradient')
            h.eq(total(h, r[0]), total(h, ref()), '%s term: value agrees with the value-only method' % what)
            h.same(np.shape(r[1]), (L,), '%s term: one derivative per parameter' % what)
            for j in range(L):
                h.eq(r[1][j], h.grad0(lambda t: fn(t[0], j), 's'), '%s term: gradient is the derivative of the value' % what)
            h.eq(p, a.part, 'the trajectories are left alone')
            h.eq(q, b.part, 'the trajectories are left alone')


def c35_base(h):
    """a mixed model without a law for the initial nonlinear states: only the linear ones count"""
    P = h.p
    N, lxi, lz, L = P['N'], P['lxi'], P['lz'], 2
    S = Mix(h, N, lxi, lz, 1, part=(), none=('Qxiz',))
    a = Sm(h, 'a', N, lxi, lz)
    z0, P0 = h.vec('z0', N, lz, 1), h.spdn('P0', N, lz)
    dz = h.vec('dz', N, L, lz, 1)
    X = h.vec('dP', N, L, lz, lz)
    dP = h.mkarr([v for i in range(N) for j in range(L) for v in flat(h, X[i, j] + X[i, j].T)], (N, L, lz, lz))

    class B(object):
        def get_rb_initial(self, xi):
            h.eq(flat(h, xi), flat(h, a.xi), 'initial linear states are asked for the initial nonlinear ones')
            return z0.copy(), P0.copy()

        def get_rb_initial_grad(self, xi):
            return dz.copy(), dP.copy()
    m = type('Model', (B, type(S.model())), {})(lxi=lxi, lz=lz, params=h.vec('th', L), **S.con('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'C', 'h', 'R'))

    def ref(t=None, j=None):
        s = h.const(0)
        for i in range(N):
            z, V = (z0[i], P0[i]) if t is None else (z0[i] + dz[i, j] * t, P0[i] + dP[i, j] * t)
            h.pd(V)
            e = a.z[i] - z
            s = s + gauss(h, V, e.dot(e.T) + a.P[i])
        return s
    p = a.part.copy()
    v = total(h, m.eval_logp_x0(p, h.real('t')))
    r = m.eval_logp_x0_val_grad(p, h.real('t'))
    h.eq(total(h, r[0]), v, 'value agrees with the value-only method')
    h.same(np.shape(r[1]), (L,), 'one derivative per parameter')
    for j in range(L):
        h.eq(r[1][j], h.grad0(lambda t: ref(t[0], j), 's'), 'gradient is the derivative of the value')
    a2 = Sm(h, 'o', N, lxi, lz)
    v0 = v - ref()
    a = a2
    consts(h, [v0, total(h, m.eval_logp_x0(a2.part, h.real('t'))) - ref()], 'initial term is the expected log-density of the linear states, up to a constant')
    h.eq(p, rows(h, h.vec('xia', N, lxi), h.vec('za', N, lz, 1), h.spdn('Pa', N, lz), h.vec('ca', N, lz, lz)), 'the trajectories are left alone')


for kw in [dict(N=2, lxi=1, lz=1), dict(N=1, lxi=2, lz=2)]:
    add('C35', label('linear-only', kw), c35_base, kw, BOTH_)


def c35_full(h):
    """terms of whole trajectories and the objective handed to the optimiser"""
    P = h.p
    N, lxi, lz, ly, L, T, miss = P['N'], P['lxi'], P['lz'], P['ly'], P['L'], P['T'], P.get('miss', ())
    grad = P.get('grad', True)
    S = Obj(h, N, lxi, lz, ly, T, P.get('part', ()), P.get('none', ('Qxiz',)), L, P['dep'])
    S.lem()
    I = h.mod(PI)
    m = S.build((I.ParamEstBaseNumericGrad, I.ParamEstInterface_GradientSearch) if grad else (I.ParamEstInterface, I.ParamEstBaseNumeric))
    a = [Sm(h, 's%d' % k, N, lxi, lz) for k in range(T)]
    part = [x.part.copy() for x in a]
    st = make_straj(h, part, [S.u[k] for k in range(T)], [None if k in miss else S.yk(k) for k in range(T)], S.t, m)
    n = S.check

    def check(particles, t, u=None, y=None, who=''):
        S.want = a[int(t)].xi
        return n(particles, t, u, y)
    S.check = check
    S.want = a[0].xi
    obs = [k for k in range(T) if k not in miss]
    c = h.f(1, N)
    parts = [lambda *t: S.x0(a[0], *t) * c] + [(lambda *t, k=k: S.xn(k, a[k], a[k + 1], *t) * c) for k in range(T - 1)] + [(lambda *t, k=k: S.yt(k, a[k], *t) * c) for k in obs]

    def ref(*t):
        s = h.const(0)
        for f in parts:
            s = s + f(*t)
        return s
    vals = []

    def handler(fun, x0, args=(), method=None, jac=None, bounds=None, tol=None, options=None):
        h.eq(x0, S.th, 'the search starts from the current parameters')
        for it in (range(2) if not S.warm else S.phases(m)):
            S.check = check
            S.want = a[0].xi
            x = h.vec('cand%d' % it, L)
            r = fun(x.copy(), *args)
            f, g = r if jac is True else (r, None)
            h.same(np.size(f), 1, 'the objective is a number')
            vals.append(total(h, f) + ref())
            if grad:
                h.same(np.shape(g), (L,), 'one derivative per parameter')
                for j in range(L):
                    h.eq(g[j], -1 * h.grad0(lambda t: ref(t[0], j), 's'), 'gradient of the objective')
        res = Result()
        res.x, res.fun, res.success = h.vec('best', L), h.const(0), True
        return res
    h.opt.handler = handler
    out = m.maximize(st)
    h.eq(out, h.vec('best', L), 'the optimum found is returned')
    # another model: the offset is the same
    consts(h, vals, 'the objective is minus the averaged expected log-likelihood, up to a constant')
    for k in range(T):
        h.eq(st.traj[k].pa.part, a[k].part, 'the trajectories are left alone')
    S2 = Obj(h, N, lxi, lz, ly, T, P.get('part', ()), P.get('none', ('Qxiz',)), L, P['dep'], nm='o')
    S2.lem()
    a2 = a
    v = h.const(0)
    m2 = S2.build((I.ParamEstBaseNumericGrad, I.ParamEstInterface_GradientSearch) if grad else (I.ParamEstInterface, I.ParamEstBaseNumeric))
    S2.want = a[0].xi
    d0 = total(h, m2.eval_logp_x0(part[0], S.t[0])) - S2.x0(a2[0])
    d1 = total(h, m.eval_logp_x0(part[0], S.t[0])) - S.x0(a2[0])
    h.eq(d0, d1, 'initial term is the expected log-density, up to a constant')


PRED = ('Axi', 'fxi', 'Az', 'fz', 'Qxi', 'Qz', 'Qxiz')
MEAS = ('C', 'h', 'R')
BOTH = ('pure', 'ext')
for kw in [dict(N=2, lxi=1, lz=1, ly=1, none=()), dict(N=2, lxi=1, lz=1, ly=1, part=PRED + MEAS, none=()), dict(N=2, lxi=1, lz=1, ly=1, rb=True), dict(N=1, lxi=2, lz=1, ly=1), dict(N=1, lxi=1, lz=2, ly=2), dict(N=1, lxi=2, lz=1, ly=2, none=(), part=('Axi', 'h')),
           dict(N=1, lxi=1, lz=1, ly=2, raw=True), dict(N=2, lxi=1, lz=1, ly=1, none=('Qxiz', 'h', 'fxi', 'fz')), dict(N=2, lxi=1, lz=1, ly=1, none=('Qxiz', 'C'), part=('h', 'R')), dict(N=2, lxi=1, lz=1, ly=1, part=('R',), raw=True),
           dict(N=2, lxi=1, lz=1, ly=1, part=('Qxi',)), dict(N=2, lxi=1, lz=1, ly=1, part=('Qz',)), dict(N=2, lxi=1, lz=1, ly=1, part=('Qxiz', 'Qz'), none=()), dict(N=2, lxi=1, lz=1, ly=1, part=('C',))]:
    add('C35', label('value', kw), c35_value, kw, BOTH)
for kw in [dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='A'), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='f'), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='Q'), dict(N=2, lxi=1, lz=1, ly=1, L=2, dep='AfQ', none=()), dict(N=1, lxi=1, lz=2, ly=1, L=1, dep='Af'), dict(N=1, lxi=2, lz=1, ly=1, L=1, dep='Af'), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='AfQ', none=(), part=PRED),
           dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='C'), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='h'), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='R'), dict(N=2, lxi=1, lz=1, ly=1, L=2, dep='ChR', part=MEAS), dict(N=1, lxi=1, lz=2, ly=2, L=1, dep='Ch'), dict(N=1, lxi=1, lz=1, ly=2, L=1, dep='ChR', raw=True), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='R', part=('R',)), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='h', part=('h',), none=('Qxiz', 'C')),
           dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='z'), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='P'), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='x'), dict(N=2, lxi=1, lz=1, ly=1, L=1, dep='X'), dict(N=2, lxi=1, lz=1, ly=1, L=2, dep='zPxX', rb=True), dict(N=1, lxi=2, lz=2, ly=1, L=1, dep='zx'), dict(N=2, lxi=1, lz=1, ly=1, L=2, dep='', allterms=True), dict(N=2, lxi=1, lz=1, ly=1, L=2, dep='AhX', allterms=True)]:
    add('C35', label('grad', kw), c35_grad, kw, BOTH)
for kw in [dict(N=2, lxi=1, lz=1, ly=1, L=2, T=2, dep='AhX'), dict(N=2, lxi=1, lz=1, ly=1, L=1, T=3, miss=(1,), dep='fCz', part=PRED + MEAS, none=()), dict(N=2, lxi=1, lz=1, ly=1, L=1, T=2, miss=(0,), dep='', grad=False)]:
    add('C35', label('objective', kw), c35_full, kw, BOTH if kw['T'] == 2 else ('pure',))
for kw in [dict(N=1, lxi=2, lz=1, ly=1, L=1, dep='Q'), dict(N=1, lxi=1, lz=2, ly=2, L=2, dep='ChR'), dict(N=1, lxi=2, lz=2, ly=1, L=1, dep='zPxX'), dict(N=1, lxi=2, lz=2, ly=1, L=1, dep='Af', none=())]:
    add('C35', label('grad', kw), c35_grad, kw, tier='thorough', budget=700)
for kw in [dict(N=2, lxi=2, lz=2, ly=2), dict(N=1, lxi=2, lz=2, ly=1, none=(), part=PRED + MEAS)]:
    add('C35', label('value', kw), c35_value, kw, tier='thorough', budget=700)
info('C35', 'up to 2 trajectories, up to 2 nonlinear and linear states and measurements, up to 2 parameters; every matrix (affine in the parameters), smoothed nonlinear state, mean, covariance and cross covariance; each subset of parameter dependent matrices listed in the cases, others None; whole objectives over 2-3 steps',
     ['terms are compared up to an additive constant that depends on the dimensions only', 'the initial law is non-degenerate', 'the user model answers by arbitrary tables and the arguments it is asked for are checked',
      'joint noise covariances with positive definite Schur complement are positive definite; a positive definite matrix stays so for small parameter changes'] + EXT)

# the model has been used with other parameter values before
for kw in [dict(warm='new'), dict(warm='inplace'), dict(warm='new', none=(), part=PRED + MEAS), dict(warm='new', rb=True)]:
    kw = dict(kw, N=1, lxi=1, lz=1, ly=1)
    add('C35', label('value', kw), c35_value, kw, BOTH)
    for dep in ('AfQ', 'ChR', 'zPxX'):
        add('C35', label('grad', dict(kw, dep=dep)), c35_grad, dict(kw, dep=dep, L=1), BOTH)
    if 'rb' not in kw:
        add('C35', label('objective', kw), c35_full, dict(kw, L=1, T=2, dep='fhx'))
