"""C25-C27: the nonlinear Gaussian model with additive noise."""
import numpy as np
from engine.cases import add, info, label
from harness.e_kalman import flat, dot, lognorm, snapshot, unchanged

NLG = 'pyparticleest.models.nlg'


class Tables(object):
    """values of f, g, Q, R of the user model, with the arguments they must be asked for"""

    def __init__(self, h, N, lxi, ly):
        self.h, self.N, self.lxi, self.ly = h, N, lxi, ly
        self.want = {}
        self.f = h.vec('f', N, lxi)
        self.g = h.vec('g', N, ly)
        self.asked = set()

    def expect(self, **kw):
        """kind -> (particles, u, t)"""
        self.want = {k: (np.copy(v[0]) if not self.h.sym else v[0].copy(),) + tuple(v[1:]) for k, v in kw.items()}

    def ask(self, kind, particles, *a):
        h = self.h
        self.asked.add(kind)
        if kind not in self.want:
            h.fail('%s is not needed here' % kind)
        w = self.want[kind]
        h.eq(particles, w[0], '%s is evaluated for the particles' % kind)
        for x, y, n in zip(a, w[1:], ('input', 'time') if len(a) == 2 else ('time',)):
            h.eq(x, y, '%s is evaluated for the right %s' % (kind, n))


def build(h, N, lxi, ly, fmode, qmode, x0=None, Px0=None, base='NonlinearGaussianInitialGaussian', late=''):
    """(model, tables, f (N, lxi), g (N, ly), Q [N], R [N]); modes: constant or per particle"""
    nlg = h.mod(NLG)
    T = Tables(h, N, lxi, ly)
    kw = {}
    Qc, Rc = h.spd('Q', lxi), h.spd('R', ly)
    if qmode == 'const':
        Q, R = [Qc] * N, [Rc] * N
        kw.update(Q=Qc, R=Rc)
    else:
        Qt, Rt = h.spdn('Qp', N, lxi), h.spdn('Rp', N, ly)
        T.Q, T.R = Qt, Rt
        Q, R = [Qt[i] for i in range(N)], [Rt[i] for i in range(N)]
        if qmode == 'both':        # a per particle value takes precedence over the constant
            kw.update(Q=Qc, R=Rc)
    if fmode == 'const':
        fc, gc = h.vec('fc', lxi), h.vec('gc', ly)
        kw.update(f=fc, g=gc)
        fv = h.mkarr([fc[k] for _ in range(N) for k in range(lxi)], (N, lxi))
        gv = h.mkarr([gc[k] for _ in range(N) for k in range(ly)], (N, ly))
    else:
        fv, gv = T.f, T.g

    class M(getattr(nlg, base)):
        def calc_f(self, particles, u, t):
            if fmode == 'const':
                return None
            T.ask('f', particles, u, t)
            return T.f.copy()

        def calc_g(self, particles, t):
            if fmode == 'const':
                return None
            T.ask('g', particles, t)
            return T.g.copy()

        def calc_Q(self, particles, u, t):
            if qmode == 'const':
                return None
            T.ask('Q', particles, u, t)
            return Qt.copy()

        def calc_R(self, particles, t):
            if qmode == 'const':
                return None
            T.ask('R', particles, t)
            return Rt.copy()
    late = {k: kw.pop(k) for k in late}
    if base == 'NonlinearGaussianInitialGaussian':
        kw.update(x0=x0, Px0=Px0)
        if x0 is None and Px0 is None:
            kw['lxi'] = lxi
    else:
        kw['lxi'] = lxi
    m = M(**kw)
    for k, v in late.items():     # constants given after construction
        getattr(m, 'set_' + k)(v)
    return m, T, fv, gv, Q, R


def phases(h, m, T, f, g, Q, R):
    """once; or with earlier values of the model first"""
    if h.p.get('warm'):
        yield 0
        N, lxi, ly = T.N, T.lxi, T.ly
        if h.p['Q'] == 'const':
            Qn, Rn = h.spd('Qw', lxi), h.spd('Rw', ly)
            m.set_Q(Qn)
            m.set_R(Rn)
            Q[:], R[:] = [Qn] * N, [Rn] * N
        else:
            T.Q[...], T.R[...] = h.spdn('Qw', N, lxi), h.spdn('Rw', N, ly)
            Q[:], R[:] = [T.Q[i] for i in range(N)], [T.R[i] for i in range(N)]
        if h.p.get('f', 'table') == 'table':
            T.f[...], T.g[...] = h.vec('fw', N, lxi), h.vec('gw', N, ly)
        if hasattr(m, 'Px0') and 'P0' in h.p:
            x0, P0 = h.vec('xw', lxi, 1), h.spd('Pw', lxi)
            if h.p['warm'] == 'inplace':
                m.x0[...], m.Px0[...] = x0.reshape(m.x0.shape), P0
            else:
                m.x0, m.Px0 = x0, P0
    yield 1


def c25(h):
    P = h.p
    N, lxi, ly = P['N'], P['lxi'], P['ly']
    m, T, f, g, Q, R = build(h, N, lxi, ly, P['f'], P['Q'], base=P.get('base', 'NonlinearGaussianInitialGaussian'), late=P.get('late', ''))
    if P.get('setqr'):
        Qn, Rn = h.spd('Qn', lxi), h.spd('Rn', ly)
        m.set_Q(Qn)
        m.set_R(Rn)
        Q, R = [Qn] * N, [Rn] * N
    for ph in phases(h, m, T, f, g, Q, R):
        x, nx, v = h.vec('x', N, lxi), h.vec('n', N, lxi), h.vec('v', N, lxi)
        u, t, y = h.real('u'), h.real('t'), h.vec('y', ly)
        sn = snapshot(h, nx=nx, v=v, y=y)
        T.expect(f=(x, u, t), Q=(x, u, t))
        x2 = x.copy()
        r = m.logp_xnext(x2, nx, u, t)
        h.same(np.shape(r), (N,), 'one density per particle')
        for i in range(N):
            h.eq(r[i], lognorm(h, nx[i] - f[i], Q[i]), 'transition density is log N(x+; f, Q)')
        h.eq(x2, x, 'evaluating a density leaves the particles alone')
        r = m.update(x2, u, t, v)
        h.eq(r, f + v, 'next state is f plus noise')
        h.eq(x2, f + v, 'update works in place')
        x2 = x.copy()
        T.expect(g=(x, t), R=(x, t))
        for yy, nm in ((y, 'vector'), (y.reshape((ly, 1)), 'column')) + (((y[0], 'number'),) if ly == 1 else ()):
            r = m.measure(x2, yy, t)
            h.same(np.shape(r), (N,), 'one likelihood per particle')
            for i in range(N):
                h.eq(r[i], lognorm(h, y - g[i], R[i]), 'likelihood is log N(y; g, R), measurement given as a %s' % nm)
        h.eq(x2, x, 'measuring leaves the particles alone')
        # first stage weights
        T.expect(f=(x, u, t), Q=(x, u, t), g=(f, t + 1), R=(f, t + 1))
        r = m.eval_1st_stage_weights(x2, u, y, t)
        h.same(np.shape(r), (N,), 'one first stage weight per particle')
        for i in range(N):
            h.eq(r[i], lognorm(h, y - g[i], R[i]), 'first stage weight is the likelihood of the noise free prediction')
        h.eq(x2, x, 'first stage weights leave the particles alone')
        unchanged(h, sn)
        for nth in (1, 2, 3):
            th = h.vec('theta%d' % nth, nth)
            m.set_params(th)
            h.same(len(m.params), nth, 'one stored parameter per parameter')
            h.eq(h.np.ravel(m.params), th, 'the parameters are remembered')
            was = th.copy()
            th[0] = th[0] + 1
            h.eq(h.np.ravel(m.params), was, 'the parameters are copied')


info('C25', 'up to 3 particles, state dimension <= 2 (3 in thorough), measurement dimension <= 2; every f, g, Q, R, particle and measurement, constant or per particle; pure Python and Cython helpers',
     ['the user model answers f, g, Q, R by arbitrary tables and the arguments it is asked for are checked'])
for kw in [dict(N=2, lxi=1, ly=1, f='table', Q='const'), dict(N=2, lxi=2, ly=2, f='table', Q='const'), dict(N=2, lxi=2, ly=1, f='table', Q='part'), dict(N=2, lxi=1, ly=2, f='const', Q='const'),
           dict(N=2, lxi=1, ly=1, f='const', Q='part'), dict(N=3, lxi=1, ly=1, f='table', Q='both'), dict(N=2, lxi=2, ly=2, f='table', Q='both'), dict(N=2, lxi=1, ly=2, f='table', Q='const', setqr=True),
           dict(N=1, lxi=2, ly=1, f='const', Q='const', setqr=True), dict(N=2, lxi=2, ly=1, f='table', Q='const', base='NonlinearGaussian'),
           dict(N=2, lxi=2, ly=1, f='table', Q='const', late='Q'), dict(N=2, lxi=1, ly=2, f='table', Q='const', late='R', base='NonlinearGaussian'), dict(N=2, lxi=1, ly=2, f='const', Q='const', late='QR')]:
    add('C25', label('model', kw), c25, kw, ('pure', 'ext') if kw['N'] == 2 else ('pure',))
add('C25', 'model-3d', c25, dict(N=2, lxi=3, ly=3, f='table', Q='const'), ('pure', 'ext'), tier='thorough')
add('C25', 'model-3d-part', c25, dict(N=2, lxi=3, ly=2, f='table', Q='part'), tier='thorough')


def block(h, Qs):
    """block diagonal covariance of N independent vectors"""
    n, N = len(Qs[0]), len(Qs)
    C = h.zeros((N * n, N * n))
    for i in range(N):
        C[i * n:(i + 1) * n, i * n:(i + 1) * n] = Qs[i]
    return C


def c26_noise(h):
    P = h.p
    N, lxi = P['N'], P['lxi']
    m, T, f, g, Q, R = build(h, N, lxi, 1, 'table', P['Q'])
    if P.get('setqr'):
        Qn = h.spd('Qn', lxi)
        m.set_Q(Qn)
        Q = [Qn] * N
    for ph in phases(h, m, T, f, g, Q, R):
        x, u, t = h.vec('x', N, lxi), h.real('u'), h.real('t')
        x2 = x.copy()
        T.expect(Q=(x, u, t))
        mean, cov, nz = h.law(lambda: m.sample_process_noise(x2, u, t))
        h.same(len(mean), N * lxi, 'one noise vector per particle')
        h.eq(mean, h.zeros((N * lxi,)), 'process noise has mean zero')
        h.eq(cov, block(h, Q), 'process noise has the declared covariance, independent between particles')
        h.eq(x2, x, 'sampling noise leaves the particles alone')
        h.same(np.shape(m.sample_process_noise(x2, u, t)), (N, lxi), 'shape of the noise')


def c26_init(h):
    P = h.p
    N, lxi = P['N'], P['lxi']
    x0 = h.vec('x0', lxi) if P['x0'] else None
    Px0 = {'spd': h.spd('P0', lxi), 'zero': h.zeros((lxi, lxi)), 'none': None}[P['P0']]
    if x0 is not None and P.get('col'):
        x0 = x0.reshape((lxi, 1))
    m, T, f, g, Q, R = build(h, N, lxi, 1, 'table', 'const', x0=x0, Px0=Px0)
    for ph in phases(h, m, T, f, g, Q, R):
        if h.p.get('warm'):
            x0, Px0 = m.x0.copy(), m.Px0.copy()
        mu = x0.reshape((-1,)) if x0 is not None else h.zeros((lxi,))
        cov0 = Px0 if P['P0'] == 'spd' else h.zeros((lxi, lxi))
        mean, cov, nz = h.law(lambda: m.create_initial_estimate(N))
        h.eq(mean, h.mkarr([mu[k] for _ in range(N) for k in range(lxi)], (N * lxi,)), 'initial states have mean x0')
        h.eq(cov, block(h, [cov0] * N), 'initial states have covariance P0, independent between particles')
        part = m.create_initial_estimate(N)
        h.same(np.shape(part), (N, lxi), 'one initial state per particle')
        if P['P0'] == 'spd':
            x = h.vec('x', N, lxi)
            r = m.eval_logp_x0(x, t=h.real('t'))
            h.same(np.shape(r), (N,), 'one density per particle')
            for i in range(N):
                h.eq(r[i], lognorm(h, x[i] - mu, Px0), 'initial density is log N(x; x0, P0)')
        else:
            r = m.eval_logp_x0(part, t=h.real('t'))
            for i in range(N):
                h.same(float(r[i]) if not hasattr(r[i], 'r') else float(r[i].r.const()), 0.0, 'a deterministic initial state has log density 0 at x0')
            far = part.copy()
            far[0, 0] = far[0, 0] + 1
            r = m.eval_logp_x0(far, t=h.real('t'))
            h.same(float(r[0]) if not hasattr(r[0], 'r') else float(r[0].r.const()), float('-inf'), 'and minus infinity elsewhere')


info('C26', 'up to 3 particles, dimension <= 3; every mean and positive definite (or zero) covariance; the law of a draw is the exact linear image of independent standard normals',
     ['numpy.random normal draws are symbols, independent standard normals; multivariate_normal is modelled by a vector with the stated covariance'])
for kw in [dict(N=2, lxi=1, Q='const'), dict(N=2, lxi=2, Q='const'), dict(N=2, lxi=2, Q='part'), dict(N=3, lxi=1, Q='both'), dict(N=1, lxi=3, Q='const'), dict(N=1, lxi=2, Q='const', setqr=True), dict(N=1, lxi=3, Q='part')]:
    add('C26', label('noise', kw), c26_noise, kw)
for kw in [dict(N=2, lxi=1, x0=True, P0='spd'), dict(N=2, lxi=2, x0=True, P0='spd'), dict(N=2, lxi=2, x0=False, P0='spd'), dict(N=3, lxi=2, x0=True, P0='zero', col=True), dict(N=2, lxi=2, x0=True, P0='none'),
           dict(N=2, lxi=2, x0=False, P0='none'), dict(N=1, lxi=3, x0=True, P0='spd', col=True)]:
    add('C26', label('initial', kw), c26_init, kw, ('pure', 'ext'))


def step_of(h, f, parts):
    return [f.TrajectoryStep(f.ParticleApproximation(p), np.arange(len(p))) for p in parts]


def c27_max(h):
    P = h.p
    N, lxi = P['N'], P['lxi']
    m, T, f, g, Q, R = build(h, N, lxi, 1, 'table', P['Q'])
    if P.get('setqr'):
        Qn = h.spd('Qn', lxi)
        m.set_Q(Qn)
        Q = [Qn] * N
    for ph in phases(h, m, T, f, g, Q, R):
        x, nx = h.vec('x', N, lxi), h.vec('n', N, lxi)
        u, t = h.real('u'), h.real('t')
        T.expect(f=(x, u, t), Q=(x, u, t))
        x2 = x.copy()
        lp = m.logp_xnext(x2, nx, u, t)
        top = m.logp_xnext(x2, f.copy(), u, t)
        mx = flat(h, m.logp_xnext_max(x2, u, t))
        h.same(len(mx), 1, 'one bound for all particles')
        for i in range(N):
            h.true(h.le(0, top[i] - lp[i]), 'no next state is likelier than the mean')
        best = h.maxof([top[i] for i in range(N)]) if P['Q'] != 'const' else top[0]
        h.eq(mx[0], best, 'the bound is the largest density at the mean over the particles')
        r = m.logp_xnext_max_full(x2, None, None, [u], None, [t], 0)
        h.eq(flat(h, r)[0], best, 'the bound is used by the rejection samplers')
        h.eq(x2, x, 'particles are left alone')


def c27_proposal(h):
    f_ = h.mod('pyparticleest.filter')
    P = h.p
    N, M, lxi, k = P['N'], P['M'], P['lxi'], P['k']
    x0, P0 = h.vec('x0', lxi), h.spd('P0', lxi)
    m, T, f, g, Q, R = build(h, M, lxi, 1, 'table', P['Q'], x0=x0, Px0=P0)
    for ph in phases(h, m, T, f, g, Q, R):
        if P.get('warm'):
            x0, P0 = m.x0.reshape((-1,)), m.Px0.copy()
        nt = max(3, k + 2)
        parts = [h.vec('p%d' % i, N, lxi) for i in range(nt)]
        u, y, t = h.vec('u', nt), h.vec('y', nt), h.vec('t', nt)
        traj = step_of(h, f_, parts)
        anc = np.array([h.choose(N, 'anc') for _ in range(M)], dtype=int)
        find = np.arange(M)
        fut = traj[k + 1:]
        old = [p.copy() for p in parts]
        prop = h.vec('x', M, lxi)
        if k > 0:
            src = parts[k - 1][anc]
            T.expect(f=(src, u[k - 1], t[k - 1]), Q=(src, u[k - 1], t[k - 1]))
            a = (traj[:k], anc, fut, find, y, u, t, k)
            mean, cov, _ = h.law(lambda: m.propose_smooth(*a))
            h.eq(mean, f.reshape((-1,)), 'proposals are centred at the prior dynamics from the ancestor')
            h.eq(cov, block(h, Q), 'proposals have the process noise covariance')
            r = m.logp_proposal(prop, *a)
            for i in range(M):
                h.eq(r[i], lognorm(h, prop[i] - f[i], Q[i]), 'reported density of the proposal')
            a = dict(ptraj=traj[:k], anc=anc, future_trajs=fut, find=find, yt=y, ut=u, tt=t, cur_ind=k)
            h.same(np.shape(m.propose_smooth(**a)), (M, lxi), 'one proposal per trajectory')
        else:
            a = (None, None, fut, find, y, u, t, k)
            mean, cov, _ = h.law(lambda: m.propose_smooth(*a))
            h.eq(mean, h.mkarr([x0[i] for _ in range(M) for i in range(lxi)], (M * lxi,)), 'first states are proposed from the initial distribution')
            h.eq(cov, block(h, [P0] * M), 'first states are proposed from the initial distribution')
            r = m.logp_proposal(prop, *a)
            for i in range(M):
                h.eq(r[i], lognorm(h, prop[i] - x0, P0), 'reported density of the initial proposal')
            if P.get('warm'):
                continue
            m.eval_logp_x0 = lambda particles, t: (particles, t)
            (pp, tt) = m.logp_proposal(prop, *a)
            h.eq(pp, prop, 'the initial density is evaluated for the proposals')
            h.eq(tt, t[0], 'the initial density is evaluated at the first time')
        for p, q in zip(parts, old):
            h.eq(p, q, 'the filter particles are left alone')


info('C27', 'up to 3 particles, dimension <= 2 (3 for the proposal), every particle, next state, mean and positive definite covariance; proposals for first and later steps',
     ['the user model answers f and Q by arbitrary tables and the arguments it is asked for are checked', 'numpy.random normal draws are independent standard normal symbols'])
for kw in [dict(N=2, lxi=1, Q='const'), dict(N=2, lxi=2, Q='const'), dict(N=2, lxi=1, Q='part'), dict(N=2, lxi=2, Q='both'), dict(N=3, lxi=1, Q='part'), dict(N=1, lxi=2, Q='const', setqr=True)]:
    add('C27', label('bound', kw), c27_max, kw, ('pure', 'ext') if kw['N'] == 2 else ('pure',))
for kw in [dict(N=2, M=2, lxi=1, Q='const', k=1), dict(N=2, M=2, lxi=2, Q='part', k=2), dict(N=2, M=2, lxi=2, Q='const', k=0), dict(N=2, M=1, lxi=1, Q='part', k=0), dict(N=2, M=1, lxi=3, Q='const', k=1), dict(N=2, M=1, lxi=1, Q='const', k=3)]:
    add('C27', label('proposal', kw), c27_proposal, kw, runs=4)


def c19_hooks(h):
    """the nonlinear Gaussian model has nothing to post-process"""
    m = build(h, 2, 2, 1, 'table', 'const')[0]
    f = h.mod('pyparticleest.filter')
    parts = [h.vec('p%d' % k, 2, 2) for k in range(2)]
    traj = np.array(step_of(h, f, parts), dtype=object)

    class St(object):
        pass
    for name in ('post_smoothing', 'pre_mhips_pass'):
        st = St()
        st.traj = traj
        r = getattr(m, name)(st)
        h.same(len(r), 2, '%s keeps every step' % name)
        for k in range(2):
            h.same(r[k] is traj[k], True, '%s keeps every step' % name)
            h.eq(r[k].pa.part, parts[k], '%s leaves the trajectories as they are' % name)
    src = parts[0].copy()
    for what, r in [('sample_smooth', m.sample_smooth(src, None, None, traj, np.arange(2), [0], [0], [0], 0)), ('copy_ind', m.copy_ind(src, np.array([0, 1])))]:
        h.eq(r, src, '%s returns the particles' % what)
        r[0, 0] = r[0, 0] + 1
        h.eq(src, parts[0], '%s returns an independent copy' % what)


add('C19', 'hooks-nlg', c19_hooks, {}, runs=2)

# the model has been used with other values before
for q in ('const', 'part'):
    kw = dict(N=2, lxi=1, Q=q, warm=True)
    add('C25', label('model', kw), c25, dict(kw, ly=1, f='table'), ('pure', 'ext'))
    add('C26', label('noise', kw), c26_noise, kw)
    add('C27', label('bound', kw), c27_max, kw, ('pure', 'ext'))
    add('C27', label('proposal', kw), c27_proposal, dict(kw, M=2, k=1), runs=4)
    add('C27', label('proposal-first', kw), c27_proposal, dict(kw, M=2, k=0, P0='spd'), runs=4)
add('C26', 'initial-warm', c26_init, dict(N=2, lxi=2, x0=True, P0='spd', Q='const', warm=True), ('pure', 'ext'))
add('C26', 'initial-warm-inplace', c26_init, dict(N=2, lxi=2, x0=True, P0='spd', Q='const', warm='inplace'), ('pure', 'ext'))
