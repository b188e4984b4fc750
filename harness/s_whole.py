"""C49: whole numbers given as integers mean the same as given as floating-point numbers."""
import numpy as np
from engine.cases import add, info, label
from harness.e_kalman import flat, KAL
from harness.g_ltv import EXT
from harness.h_mlnlg import Pts
from harness.i_hier import mk
from harness.l_paramest import Terms
from harness.opaque import Opaque
from harness.p_repeat import snapshot, compare

WHAT = 'integers mean the same as floating-point numbers'


class Num(object):
    """arrays of whole numbers, as integers or not"""

    def __init__(self, h, ints):
        self.h, self.ints = h, ints

    def __call__(self, x):
        a = np.array(x)
        if self.ints:
            return a
        return self.h.mkarr([self.h.f(int(v)) for v in a.ravel()], a.shape)


def nlg(h, c, P):
    class M(h.mod('pyparticleest.models.nlg').NonlinearGaussianInitialGaussian):
        def calc_f(self, particles, u, t):
            return None if P.get('const') else particles / 2 + u

        def calc_g(self, particles, t):
            return None if P.get('const') else particles + 1
    kw = dict(f=c([[3]]), g=c([[1]])) if P.get('const') else {}
    if not P.get('known'):
        kw['Px0'] = c([[4]])
    return M(x0=c([1]), Q=c([[1]]), R=c([[4]]), **kw)


def gradient(h, base, first=True):
    pi = h.mod('pyparticleest.paramest.interfaces')
    return (pi.ParamEstBaseNumericGrad, base, pi.ParamEstInterface_GradientSearch)


def ltv(h, c, P):
    B = h.mod('pyparticleest.models.ltv').LTV
    g = lambda: c([[[1]]])

    class M(*gradient(h, B)):
        def set_params(self, p):
            self.params = p

        def get_pred_dynamics(self, u, t):
            return (c([[2]]), c([[1]]), c([[3]])) if P.get('tv') else (None, None, None)

        def get_meas_dynamics(self, y, t):
            y = h.np.asarray(y).reshape((-1, 1))
            return (y, c([[2]]), c([[1]]), c([[3]])) if P.get('tv') else (y, None, None, None)

        def get_pred_dynamics_grad(self, u, t):
            return g(), g(), g()

        def get_meas_dynamics_grad(self, y, t):
            return g(), g(), g()

        def get_initial_grad(self):
            return g(), g()
    return M(z0=c([[1]]), P0=c([[2]]), A=c([[1]]), C=c([[1]]), Q=c([[1]]), R=c([[2]]), f=c([[1]]), h=c([[3]]), params=c([1]))


def mixed(h, c, P, base='MixedNLGaussianSampledInitialGaussian'):
    B = getattr(h.mod('pyparticleest.models.mlnlg'), base)

    class M(*gradient(h, B)):
        def set_params(self, p):
            self.params = p

        def get_nonlin_pred_dynamics(self, particles, u, t):
            return None, [(p[:1] + u).reshape((-1, 1)) for p in particles], None

        def get_meas_dynamics(self, particles, y, t):
            return h.np.asarray(y).reshape((-1, 1)), None, None, None

        def get_pred_dynamics_grad(self, particles, u, t):
            n = len(particles)
            return c(n * [[[[1], [1]]]]), c(n * [[[[1], [2]]]]), c(n * [[[[1, 0], [0, 1]]]])

        def get_meas_dynamics_grad(self, particles, y, t):
            n = len(particles)
            return c(n * [[[[1]]]]), c(n * [[[[1]]]]), c(n * [[[[1]]]])
    return M(xi0=c([1]), z0=c([[2]]), Pxi0=c([[1]]), Pz0=c([[2]]), Axi=c([[1]]), Az=c([[1]]), fz=c([[1]]), C=c([[1]]), h=c([[1]]), Qxi=c([[1]]), Qz=c([[2]]), R=c([[1]]), params=c([1]))


def marg(h, c, P):
    return mixed(h, c, P, 'MixedNLGaussianMarginalizedInitialGaussian')


def table(h, c, P):
    """a model of the user's own whose log densities are whole numbers"""
    I = h.mod('pyparticleest.interfaces')

    class M(I.ParticleFiltering, I.FFBSiRS, I.SampleProposer, I.AuxiliaryParticleFiltering):
        n = 0

        def tab(self, n):
            self.n += 1
            return c([-((self.n + i) % 2) for i in range(n)])

        def create_initial_estimate(self, N):
            return c([[i + 1] for i in range(N)])

        def sample_process_noise(self, particles, u, t):
            return c([[i + 2] for i in range(len(particles))])

        def update(self, particles, u, t, noise):
            particles[:] = particles + noise
            return particles

        def measure(self, particles, y, t):
            return self.tab(len(particles))

        def logp_xnext(self, particles, next_part, u, t):
            return self.tab(len(particles))

        def logp_xnext_max(self, particles, u, t):
            return self.tab(1)[0] * 0

        def eval_1st_stage_weights(self, particles, u, y, t):
            return self.tab(len(particles))

        def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            n = len(anc) if ptraj is not None else len(find) if find is not None else 1
            return c([[5 + i] for i in range(n)])

        def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            return self.tab(len(prop_part))

        def eval_logp_x0(self, particles, t):
            return self.tab(len(particles))
    return M()


MODELS = dict(nlg=nlg, ltv=ltv, mixed=mixed, marg=marg, table=table)
TERMS = ('eval_logp_x0', 'eval_logp_x0_val_grad', 'eval_logp_xnext', 'eval_logp_xnext_val_grad', 'eval_logp_y', 'eval_logp_y_val_grad')


def parts(h, v):
    return [x for z in (v if isinstance(v, tuple) else (v,)) for x in flat(h, z)]


def run(h, c, opaque, u):
    P = h.p
    sim = h.mod('pyparticleest.simulator')
    T = P.get('T', 2)
    m = MODELS[P['model']](h, c, P)
    y = [c([k + 2]) for k in range(T)]
    s = sim.Simulator(opaque.wrap(m) if not P.get('terms') else m, list(u), y)
    s.count = s.simulate(P['N'], P.get('M', 0), filter=P.get('filter', 'PF'), smoother=P.get('smoother'), smoother_options=P.get('opts'), res=P.get('res', 0), meas_first=P.get('meas', False))
    out = snapshot(h, s, P.get('smoother'))
    if P.get('terms'):
        a, b = [s.straj.traj[k].pa.part for k in (0, 1)]
        for nm in TERMS:
            if hasattr(m, nm):
                args = dict(x0=(a, 0), xnext=(a, b, u[0], 0), y=(b, y[0], 1))[nm.split('_')[2]]
                out.append((nm, h.mkarr(parts(h, getattr(m, nm)(*args)), (-1,))))
    return out


def c49(h):
    u = [h.vec('u%d' % k, 1) for k in range(h.p.get('T', 2))]
    opaque = Opaque(h)
    tape = dict(h.counter)
    a = run(h, Num(h, False), opaque, u)
    h.counter.clear()
    h.counter.update(tape)
    b = run(h, Num(h, True), opaque, u)
    compare(h, b, a, WHAT)


# ------------------------------------------------------------------ single functions
def c49_hier(h):
    P = h.p
    N, lz = P['N'], 1
    S = mk(h)
    a, f = Pts(h, S, 'a'), Pts(h, S, 'f', N)
    S.want, S.wantn = a.xi, f.xi
    out = []
    for c in (Num(h, False), Num(h, True)):
        S.lyx, S.lpx, S.lpm = [c([list(range(-1, N - 1))]) for _ in range(3)]
        m = S.model('HierarchicalRSBase')
        x = a.part.copy()
        r = [('likelihood', m.measure(x, S.y[0].copy(), S.t[0])), ('corrected states', x)]
        r += [('density of the next state', m.logp_xnext(a.part.copy(), f.part.copy(), S.u[0], S.t[0])), ('its bound', m.logp_xnext_max(a.part.copy(), S.u[0], S.t[0]))]
        out.append(r)
    compare(h, out[1], out[0], WHAT)


def c49_kalman(h):
    P = h.p
    K = h.mod(KAL[P['impl']])
    z, p, d, v = h.vec('z', 1, 1), h.spd('P', 1), h.vec('d', 1, 1), h.vec('v', 1, 1)
    out = []
    for c in (Num(h, False), Num(h, True)):
        A, C, Q, R, f, y, e = c([[2]]), c([[3]]), c([[1]]), c([[2]]), c([[4]]), c([[5]]), c([[1], [3]])
        kf = K.KalmanSmoother(lz=1, A=A, C=C, Q=Q, R=R, f_k=f, h_k=d)
        r = [('lognormpdf', flat(h, K.lognormpdf(c([[2]]), R))), ('lognormpdf_vec', K.lognormpdf_vec(e, [Q, R])), ('lognormpdf_scalar', K.lognormpdf_scalar(c([2, 3]), R)),
             ('lognormpdf_cho', flat(h, K.lognormpdf_cho(c([[2]]), h.cho(h.mkarr([h.f(2)], (1, 1)))))), ('lognormpdf_cho_vec', K.lognormpdf_cho_vec(e, h.cho(h.mkarr([h.f(2)], (1, 1)))))]
        zz, pp = kf.predict(z.copy(), p.copy())
        r += [('predicted mean', zz), ('predicted covariance', pp), ('innovation', kf.measurement_diff(y, z, C, h_k=d)), ('innovation', kf.measurement_diff(y, z, None, h_k=d)), ('innovation', kf.measurement_diff(y, z, C))]
        for cc in (C, None):
            for fn in (kf.measure_full, kf.measure_full_scalar):
                zz, pp = z.copy(), p.copy()
                r += [('likelihood', flat(h, fn(y, zz, pp, C=cc, h_k=d, R=R))), ('corrected mean', zz), ('corrected covariance', pp)]
        r += list(zip(('smoothed mean', 'smoothed covariance', 'cross covariance'), kf.smooth(z, p, v, h.const(2) * p, A, f, Q)))
        out.append(r)
    compare(h, out[1], out[0], WHAT)


def c49_grad(h):
    """candidates of a gradient test"""
    P = h.p
    G = h.mod('pyparticleest.paramest.gradienttest')
    vals = [h.real('val%d' % k) for k in range(P['nv'])]
    out = []
    for c in (Num(h, False), Num(h, True)):
        S = Terms(h, 1, 1, 1, 2, {}, ())
        seen = []
        S.seen = lambda p: seen.append(h.np.array(p)) or 0
        m = S.model(h.mod('pyparticleest.paramest.interfaces').ParamEstInterface_GradientSearch)()

        class E(G.GradientTest):
            def simulate(self, *a, **k):
                self.straj = S.straj()
                return 0
        e = E(m, S.u, [S.y[0]])
        e.set_params(c([3, 4]))
        e.test(P['pid'], h.mkarr(vals, (len(vals),)), num=3, nums=1)
        out.append([('parameters handed to the model', p) for p in seen])
    h.same(len(out[1]), len(out[0]), 'as many evaluations')
    compare(h, out[1], out[0], WHAT)


for kw in [dict(model='nlg', N=2, T=2), dict(model='nlg', N=1, T=2, known=True, smoother='full', M=1), dict(model='nlg', N=2, T=1, const=True, filter='APF'), dict(model='nlg', N=1, T=1, smoother='mhips', M=1, meas=True, opts=dict(R=1)),
           dict(model='ltv', N=1, T=2, smoother='full', M=1, terms=True), dict(model='ltv', N=1, T=2, smoother='full', M=1, terms=True, tv=True, meas=True),
           dict(model='mixed', N=2, T=1), dict(model='mixed', N=1, T=1, smoother='full', M=1, terms=True), dict(model='marg', N=1, T=1, smoother='full', M=1),
           dict(model='table', N=2, T=1, res=1), dict(model='table', N=2, T=2, meas=True), dict(model='table', N=2, T=1, filter='APF', res=1)] + \
        [dict(model='table', N=2, T=1, M=1, smoother=s, meas=True) for s in ('full', 'mcmc', 'rs', 'rsas', 'mhips', 'mhbp', 'ancestor')]:
    add('C49', label('run', kw), c49, kw)
for kw in [dict(model='table', N=3, T=2, res=1), dict(model='table', N=2, T=2, M=2, smoother='full'), dict(model='nlg', N=2, T=2, M=1, smoother='full')]:
    add('C49', label('run', kw), c49, kw, tier='thorough')
for impl in ('pure', 'ext'):
    add('C49', 'kalman-' + impl, c49_kalman, dict(impl=impl), configs=(impl,))
for N in (1, 2):
    add('C49', 'hier-N%d' % N, c49_hier, dict(N=N, lxi=1, lz=1, ly=1))
for pid in (0, 1):
    add('C49', 'gradient-%d' % pid, c49_grad, dict(pid=pid, nv=2))
info('C49', 'runs of up to 2 steps, 2 particles (thorough 3) and 1 trajectory (2) of nonlinear Gaussian, linear, mixed and user written models with every filter option and smoother named in the cases, the objective terms of the linear and mixed models, the Kalman functions of both implementations, the hierarchical densities and the candidates of the gradient test; whole numbers are fixed small ones, everything else (inputs, draws, states) is arbitrary', EXT)
