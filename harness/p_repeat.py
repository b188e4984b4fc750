"""C46: running again is like running for the first time."""
import copy
import numpy as np
from engine.cases import add, info, label
from harness.e_kalman import flat
from harness.g_ltv import EXT
from harness.opaque import Opaque


def num(h, p, q=1):
    return h.mkarr([h.f(p, q)], (1, 1))


def nlg(h):
    class M(h.mod('pyparticleest.models.nlg').NonlinearGaussianInitialGaussian):
        def set_params(self, p):
            self.a, self.q = p[0], p[1]

        def calc_f(self, particles, u, t):
            return self.a * particles + u

        def calc_g(self, particles, t):
            return particles / 2 + self.q

        def calc_Q(self, particles, u, t):
            return [h.mkarr([self.q * self.q + 1], (1, 1)) for _ in particles]
    return M(x0=h.mkarr([h.f(1)], (1,)), Px0=num(h, 2), R=num(h, 3, 2))


def ltv(h):
    class M(h.mod('pyparticleest.models.ltv').LTV):
        def set_params(self, p):
            self.b = p[1]
            self.kf.set_dynamics(A=h.mkarr([p[0]], (1, 1)), Q=h.mkarr([p[1] * p[1] + 1], (1, 1)))

        def get_pred_dynamics(self, u, t):
            return None, u.reshape((-1, 1)) + self.b, None if int(t) else num(h, 2)

        def get_meas_dynamics(self, y, t):
            return h.np.asarray(y).reshape((-1, 1)), None, h.mkarr([self.b / 2], (1, 1)), None if int(t) else num(h, 5, 2)
    return M(z0=num(h, 1), P0=num(h, 2), A=num(h, 5), C=num(h, 1, 2), Q=num(h, 1), R=num(h, 3, 2), f=num(h, 0), h=num(h, 0))


def mixed(base):
    def build(h):
        class M(getattr(h.mod('pyparticleest.models.mlnlg'), base)):
            def set_params(self, p):
                self.b = p[1]
                self.set_dynamics(Axi=h.mkarr([p[0]], (1, 1)), fz=h.mkarr([p[1]], (1, 1)))

            def get_nonlin_pred_dynamics(self, particles, u, t):
                return None, [(p[:1] * p[:1] + u + self.b).reshape((-1, 1)) for p in particles], None

            def get_meas_dynamics(self, particles, y, t):
                return h.np.asarray(y).reshape((-1, 1)), None, [(p[:1] - self.b).reshape((-1, 1)) for p in particles], None
        return M(xi0=h.mkarr([h.f(1)], (1,)), z0=num(h, 1), Pxi0=num(h, 2), Pz0=num(h, 3), Axi=num(h, 5), Az=num(h, 1, 2), C=num(h, 2), Qxi=num(h, 1), Qz=num(h, 2, 3), R=num(h, 3, 2))
    return build


def hier(h):
    class M(h.mod('pyparticleest.models.hierarchial').HierarchicalBase):
        def set_params(self, p):
            self.a, self.b = p[0], p[1]
            self.set_dynamics(Az=h.mkarr([p[1]], (1, 1)))

        def create_initial_estimate(self, N):
            x = h.zeros((N, 4))
            x[:, 0] = h.rnd.normal(size=(N,))
            x[:, 1] = x[:, 0] / 3
            x[:, 2] = h.f(2)
            return x

        def get_rb_initial(self, xi):
            N = len(xi)
            return h.mkarr([x / 3 for x in flat(h, xi)], (N, 1, 1)), h.mkarr([h.f(2)] * N, (N, 1, 1))

        def sample_process_noise(self, particles, u, t):
            return h.rnd.normal(size=(len(particles), 1))

        def calc_xi_next(self, particles, u, t, noise):
            return self.a * particles[:, :1] + u + noise

        def logp_xnext_xi(self, particles, next_xi, u, t):
            d = next_xi[:, 0] - (self.a * particles[:, 0] + u[0])
            return -d * d / 2

        def measure_nonlin(self, particles, y, t):
            d = particles[:, 0] - y[0]
            return -d * d / 2

        def get_lin_pred_dynamics(self, particles, u, t):
            return None, [(p[:1] + self.b).reshape((-1, 1)) for p in particles], None

        def get_lin_meas_dynamics(self, particles, y, t):
            return y[1:].reshape((-1, 1)), None, [num(h, 1) * self.b for _ in particles], None
    return M(len_xi=1, len_z=1, Az=num(h, 5), fz=num(h, 0), Qz=num(h, 2, 3), C=num(h, 2), hz=num(h, 0), R=num(h, 3, 2))


MODELS = dict(nlg=nlg, ltv=ltv, mixed=mixed('MixedNLGaussianSampledInitialGaussian'), marg=mixed('MixedNLGaussianMarginalizedInitialGaussian'), hier=hier)


def snapshot(h, s, smoothed):
    """everything a user can read after a run"""
    out = [('number of resamplings', s.count)]
    for k in range(len(s.pt)):
        st = s.pt[k]
        out += [('particles', st.pa.part.copy()), ('weights', st.pa.w.copy()), ('ancestors', [int(a) for a in st.ancestors])]
    est, w = s.get_filtered_estimates()
    out += [('filtered estimates', est), ('filtered weights', w), ('filtered mean', s.get_filtered_mean())]
    if smoothed:
        out += [('smoothed estimates', s.get_smoothed_estimates()), ('smoothed mean', s.get_smoothed_mean())]
    return out


def compare(h, a, b, what):
    h.same(len(a), len(b), what)
    for (nm, x), (_, y) in zip(a, b):
        if isinstance(x, (int, list)):
            h.same(x, y, '%s: %s' % (nm, what))
        else:
            h.same(np.shape(x), np.shape(y), '%s: %s' % (nm, what))
            h.eq(x, y, '%s: %s' % (nm, what))


def c46(h):
    P = h.p
    T = P.get('T', 2)
    sim = h.mod('pyparticleest.simulator')
    build = lambda h: opaque.wrap(MODELS[P['model']](h))
    ly = 2 if P['model'] == 'hier' else 1
    u = [h.vec('u%d' % k, 1) for k in range(T)]
    y = [h.vec('y%d' % k, ly) for k in range(T)]
    ua, ya = [x.copy() for x in u], [x.copy() for x in y]
    pa, pb = h.vec('pa', 2), h.vec('pb', 2)
    if P['model'] not in ('nlg', 'ltv'):
        pa, pb = h.mkarr([h.f(1, 2), h.f(1, 3)], (2,)), h.mkarr([h.f(3, 2), h.f(-2, 3)], (2,))
    opaque = Opaque(h)

    def run(s, par, cfg, fo=None):
        s.set_params(par)
        o = cfg.get('opts')
        s.count = s.simulate(cfg['N'], cfg.get('M', 0), filter=cfg.get('filter', 'PF'), filter_options=fo, smoother=cfg.get('smoother'), smoother_options=o, res=cfg.get('res', 0), meas_first=cfg.get('meas', False))
        return snapshot(h, s, cfg.get('M', 0) and cfg.get('smoother'))
    first, second = P['first'], P['second']
    s = sim.Simulator(build(h), u, y)
    par = pa.copy()
    r1 = run(s, par, first)
    kept = copy.deepcopy(r1)
    h.eq(par, pa, 'the parameters of the user are not changed')
    old = (s.pt, s.straj)
    tape = dict(h.counter)
    par = pb.copy()
    opts = copy.deepcopy(second.get('opts'))
    fo = None
    if second.get('filter', 'PF').startswith('C'):
        fo = {'cond_traj': np.copy(s.straj.traj)}     # conditioned on the trajectory of the first run
        before = [(st.pa.part.copy(), st.pa.w.copy()) for st in fo['cond_traj']]
    r2 = run(s, par, second, fo)
    h.same(s.pt is not old[0], True, 'every run makes a new trajectory')
    compare(h, r1, kept, 'results handed out earlier are left alone by another run')
    h.same(second.get('opts'), opts, 'the options of the user are not changed')
    h.eq(par, pb, 'the parameters of the user are not changed')
    h.same((len(u), len(y)), (T, T), 'the data of the user are not changed')
    for k in range(T):
        h.eq(u[k], ua[k], 'the inputs of the user are not changed')
        h.eq(y[k], ya[k], 'the measurements of the user are not changed')
    h.counter.clear()
    h.counter.update(tape)
    if fo:
        h.same(list(fo), ['cond_traj'], 'the options of the user are not changed')
        for st, (x, w) in zip(fo['cond_traj'], before):
            h.same(np.shape(st.pa.part), np.shape(x), 'the conditioned trajectory is left alone')
            h.eq(st.pa.part, x, 'the conditioned trajectory is left alone')
            h.eq(st.pa.w, w, 'the conditioned trajectory is left alone')
    r3 = run(sim.Simulator(build(h), [x.copy() for x in ua], [x.copy() for x in ya]), pb.copy(), second, fo)
    compare(h, r2, r3, 'another run on the same simulator gives what a new simulator gives')


one = dict(N=1, M=1, smoother='full')
for model, sm in (('nlg', ('full', 'mcmc', 'mhips', 'mhbp', 'rs')), ('ltv', ('full', 'ancestor', 'mcmc')), ('mixed', ('full', 'mhips', 'rs')), ('marg', ('full', 'ancestor')), ('hier', ('full', 'ancestor'))):
    for q in sm:
        second = dict(N=2, M=1, smoother=q)
        if q in ('mcmc', 'mhips', 'mhbp', 'rs'):
            second['opts'] = {'R': 1}
        add('C46', '%s-%s' % (model, q), c46, dict(model=model, first=one, second=second))
        if q in ('full', 'mhips'):
            add('C46', '%s-%s-M2' % (model, q), c46, dict(model=model, first=dict(N=2, M=2, smoother='ancestor'), second=dict(second, M=2, meas=True)), tier='thorough', budget=700)
            add('C46', '%s-%s-T3' % (model, q), c46, dict(model=model, T=3, first=dict(one, meas=True), second=second), tier='thorough', budget=700)
for model in ('nlg', 'mixed', 'marg'):
    add('C46', '%s-APF' % model, c46, dict(model=model, first=dict(N=3), second=dict(N=2, filter='APF', res=2.0, meas=True)))
for model in ('nlg', 'ltv', 'hier'):
    add('C46', '%s-smaller' % model, c46, dict(model=model, first=dict(N=2, M=2, smoother='ancestor', meas=True), second=dict(N=1, M=1, smoother='full')))
for f in ('CPF', 'CPFAS'):
    add('C46', 'nlg-%s' % f, c46, dict(model='nlg', first=one, second=dict(N=2, M=1, smoother='ancestor', filter=f)))
info('C46', 'two runs one after the other on one simulator, first of 1-3 particles with 0-2 trajectories and other parameters, second of 1-2 particles, over 2 steps (thorough 3); nonlinear Gaussian, linear time-varying, mixed (sampled and marginalised) and hierarchical models with states of dimension one; all data and random numbers; parameters symbolic (rational numbers for the models with mixed states)',
     EXT + ['log densities of the models replaced by free numbers, the same number for the same expression (an abstraction: what the densities are is decided by other properties)'])
