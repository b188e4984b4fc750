"""C10 (filters), C11, C12, C19, C43: whole runs and interface adapters."""
import numpy as np
from engine.cases import add, info, label
from harness.absmodel import build, num
from harness.b_filters import cond_traj, decide_resampled, check_ancestors, check_weights, snapshot, unchanged
from harness.a_sampling import total

FILTER = 'pyparticleest.filter'
RANDOM = ['PF', 'APF', 'SIR', 'PFY']
COND = ['CPF', 'CPFAS', 'CSIRAS', 'CPFYAS']
STUB = ['the user model is abstract: opaque particles, densities arbitrary positive numbers depending on all their arguments',
        'uniform draws are arbitrary reals strictly between 0 and 1']


def mutating(cls, prov):
    """measuring rewrites the particles, as Rao-Blackwellised models do"""
    class Mut(cls):
        def measure(self, particles, y, t):
            out = cls.measure(self, particles, y, t)
            particles[:] = self.arr([prov.new('m', prov.d(p), num(y), num(t)) for p in prov.rows(particles)])
            return out
    return Mut


def trajectory(h, f, m, filt, N, T=None, res=1.0, steps=3):
    opts = {}
    if filt in COND:
        c, cids = cond_traj(h, f, m, steps + 1)
        opts = {'cond_traj': c}
    else:
        c, cids = None, None
    return f.ParticleTrajectory(m, N, resample=res, filter=filt, filter_options=opts, T=T), c, cids


# ------------------------------------------------------------------ C10
def c10_filter(h):
    f = h.mod(FILTER)
    m = build(h, nonmarkov=h.p.get('nonmarkov', False), extra=mutating if not h.p.get('nonmarkov') else None)
    N, filt, steps = h.p['N'], h.p['filter'], h.p['steps']
    pt, c, cids = trajectory(h, f, m, filt, N, h.p.get('T'), h.p.get('res', 1.0), steps)
    prov = m.prov
    ys = [h.arr([20.0 + k]) for k in range(steps + 1)]
    us = [h.arr([10.0 + k]) for k in range(steps)]
    if h.p.get('meas'):
        pt.measure(ys[0])
    for k in range(steps):
        snap = snapshot(pt.traj)
        ku, ky = [pt.uvec[i] for i in range(k)], [pt.yvec[i] for i in range(k + 1)]
        pt.forward(us[k], ys[k + 1])
        h.same(len(pt), k + 2, 'one more step')
        if not snap and filt not in COND:
            h.same([prov.key(i)[0] for i in prov.rows(pt[0].pa.part)], ['x0'] * N, 'the initial particles are kept as drawn')
        unchanged(h, pt.traj[:len(snap)], snap, 'earlier steps are unchanged')
        for i in range(k):
            h.same(pt.uvec[i] is ku[i], True, 'earlier inputs are unchanged')
        for i in range(1, k + 1):
            h.same(pt.yvec[i] is ky[i], True, 'earlier measurements are unchanged')
    for k in range(steps):
        h.eq(us[k], [10.0 + k], 'the input arrays of the user are unchanged')
        h.eq(ys[k + 1], [21.0 + k], 'the measurement arrays of the user are unchanged')
    if cids:
        for k in range(steps + 1):
            h.eq(c[k].pa.part, m.arr([cids[k]]), 'the conditioned trajectory is unchanged')


info('C10', 'runs of up to 3 steps of every filter (N<=3) and every smoother on histories of up to 3 steps; models that rewrite particles in place when updated or measured',
     STUB)
for filt in RANDOM + COND:
    add('C10', 'filter-%s' % filt, c10_filter, dict(filter=filt, N=2, steps=2, meas=filt in ('PFY', 'CPFYAS') or filt == 'PF'))
    add('C10', 'filter-%s-N3' % filt, c10_filter, dict(filter=filt, N=3, steps=1, T=5, meas=filt in ('PFY', 'CPFYAS'), res=0.7))
for filt in ('PF', 'CPFAS'):
    add('C10', 'filter-%s-nonmarkov' % filt, c10_filter, dict(filter=filt, N=2, steps=2, nonmarkov=True, meas=True))


# ------------------------------------------------------------------ C43
def c43(h):
    f = h.mod(FILTER)
    nonm = h.p.get('nonmarkov', False)
    m = build(h, nonmarkov=nonm, shift=h.p.get('lshift'))
    prov = m.prov
    N, filt, steps = h.p['N'], h.p['filter'], h.p['steps']
    res = h.p.get('res', 1.0)
    if res is None:
        res = h.unit('res')
    pt, c, cids = trajectory(h, f, m, filt, N, h.p.get('T'), res, steps)
    meas = h.p.get('meas', False)
    cond = filt in COND
    if meas:
        pt.measure(20.0)
    rs = [pt.forward(10.0 + k, 21.0 + k) for k in range(steps)]
    h.same(len(pt), steps + 1, 'one stored step per call')
    rows = []
    last = N - 1 if cond else N
    for k in range(steps + 1):
        st = pt[k]
        r = prov.rows(st.pa.part)
        rows.append(r)
        h.same(len(r), N, 'as many particles as requested')
        h.same(np.shape(st.pa.w), (N,), 'one weight per particle')
        h.same(len(st.ancestors), N, 'one ancestor per particle')
        anc = [int(a) for a in st.ancestors]
        h.same(all(0 <= a < N for a in anc), True, 'ancestors are valid')
        if cond:
            h.same(r[-1], cids[k], 'the last particle is the conditioned state')
        if k == 0:
            h.same(anc, list(range(N)), 'initial ancestors are the particles themselves')
            for i in range(last):
                key = prov.key(r[i])
                if filt in ('PFY', 'CPFYAS') and meas:
                    h.same(key[:3], ('py', 20.0, 0.0), 'initial particles proposed from the first measurement')
                else:
                    h.same(key[0], 'x0', 'initial particles are drawn from the initial distribution')
            h.same(len(set(r)), N, 'initial particles are drawn separately')
            if not meas or filt in ('PFY', 'CPFYAS'):
                for i in range(N):
                    h.eq(st.pa.w[i], -h.log(h.const(N)), 'initial particles are uniformly weighted')
            else:
                check_weights(h, st.pa.w, [h.log(like(h, m, (), x, 0, nonm)) for x in r], 'the first measurement weighs the initial particles')
            continue
        lp = []
        for i in range(N):
            x = r[i]
            key = prov.key(x)
            par = rows[k - 1][anc[i]]
            if i < last:
                if filt in ('PFY', 'CPFYAS'):
                    h.same(key[:3], ('py', 20.0 + k, float(k)), 'proposed from the measurement of the step')
                else:
                    kind, data = ('q', (9.0 + k, 20.0 + k, float(k - 1))) if filt in ('SIR', 'CSIRAS') else ('x', None)
                    h.same(key[0], kind, 'the particle was propagated once')
                    h.same(key[1], prov.d(par), 'the particle was produced from the particle its ancestor names')
                    if kind == 'q':
                        h.same(key[2:5], data, 'proposed with the data of the step')
                    else:
                        h.same(key[3:], (9.0 + k, float(k - 1)), 'propagated with the data of the step')
            ln = line(m, pt.traj, rows, k, i) if nonm else ()
            fac = []
            if filt in ('PF', 'APF', 'CPF', 'CPFAS', 'SIR', 'CSIRAS'):
                fac.append(like(h, m, ln, x, k, nonm))
            if filt in ('SIR', 'CSIRAS', 'PFY', 'CPFYAS'):
                kk = (prov.d(par),) + ((ln[1:],) if nonm else ()) + (prov.d(x), 9.0 + k, float(k - 1))
                fac.append(m.dens('F', *kk))
            if filt in ('SIR', 'CSIRAS'):
                fac.append(1 / m.dens('Q', prov.d(par), prov.d(x), 9.0 + k, 20.0 + k, float(k - 1)))
            if filt == 'APF' and rs[k - 1]:
                fac.append(1 / m.dens('A', prov.d(par), 9.0 + k, 20.0 + k, float(k - 1)))
            v = fac[0]
            for z in fac[1:]:
                v = v * z
            v = h.log(v)
            if not cond and not rs[k - 1]:
                h.same(anc[i], i, 'without resampling particle i descends from particle i')
                v = v + pt[k - 1].pa.w[i]
            lp.append(v)
        check_weights(h, st.pa.w, lp, 'weights belong to the particles of the step')


def like(h, m, ln, x, k, nonm):
    d = m.prov.d(x)
    return m.dens('L', *((d, ln, 20.0 + k, float(k)) if nonm else (d, 20.0 + k, float(k))))


def line(m, traj, rows, k, i):
    out = []
    for t in reversed(range(k)):
        i = int(traj[t + 1].ancestors[i])
        out.append(m.prov.d(rows[t][i]))
    return tuple(out)


info('C43', 'runs of up to 3 steps from the start, N<=3, every filter, thresholds 0, 1 and any in (0,1), with and without first measurement, grown and preallocated storage', STUB)
for filt in RANDOM + COND:
    pfy = filt in ('PFY', 'CPFYAS')
    add('C43', '%s-start' % filt, c43, dict(filter=filt, N=2, steps=2, meas=pfy, res=None))
    add('C43', '%s-start-N3' % filt, c43, dict(filter=filt, N=3, steps=1, meas=True, T=3))
    if filt in RANDOM:
        add('C43', '%s-no-resampling' % filt, c43, dict(filter=filt, N=3, steps=3, meas=pfy, res=0, T=2))
    if filt in ('PF', 'PFY', 'CPFAS', 'CPFYAS'):
        add('C43', '%s-nonmarkov' % filt, c43, dict(filter=filt, N=2, steps=2, meas=True, nonmarkov=True))
    add('C43', '%s-3-steps' % filt, c43, dict(filter=filt, N=2, steps=3, meas=True, res=None), tier='thorough')
add('C43', 'PF-tiny-likelihoods', c43, dict(filter='PF', N=2, steps=2, res=1.0, lshift={'L': -1000000}))
add('C43', 'CSIRAS-tiny-likelihoods', c43, dict(filter='CSIRAS', N=2, steps=2, lshift={'L': -1000000}))


# ------------------------------------------------------------------ C11
def c11(h):
    """a non-Markov model that checks everything it is handed against symbolic data"""
    f = h.mod(FILTER)
    I = h.mod('pyparticleest.interfaces')
    N, steps = h.p['N'], h.p['steps']
    dim = h.p.get('dim')
    mk = (lambda n: h.vec(n, dim)) if dim else h.real
    u = [mk('u%d' % k) for k in range(steps)]
    y = [mk('y%d' % k) for k in range(steps + 1)]
    meas = h.p.get('meas', False)
    for k in h.p.get('missing', ()):
        y[k] = None
    if not meas:
        y[0] = None
    log = []

    def same_data(vec, ref, n, what):
        h.same(len(vec), n, '%s up to the current index' % what)
        for i in range(n):
            if ref[i] is None:
                h.same(vec[i] is None, True, '%s: missing entries stay missing' % what)
            else:
                h.eq(vec[i], ref[i], '%s at their index' % what)

    class M(I.ParticleFilteringNonMarkov):
        def create_initial_estimate(self, n):
            h.same(n, N, 'number of particles')
            log.append(('init',))
            return h.zeros((n, 1))

        def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
            k = len(ptraj) - 1
            same_data(ut, u, k + 1, 'inputs')
            same_data(tt, times, k + 1, 'times')
            return h.zeros((N, 1))

        def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
            k = len(traj) - 1
            log.append(('update', k))
            same_data(uvec, u, k + 1, 'inputs')
            same_data(yvec, y, k + 1, 'measurements')
            same_data(tvec, times, k + 1, 'times')
            return particles

        def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
            k = len(tvec) - 1
            log.append(('measure', k))
            h.same(len(traj) in ((k,) if k else (0, 1)), True, 'history before the measured step')
            same_data(yvec, y, k + 1, 'measurements')
            same_data(tvec, times, k + 1, 'times')
            return h.zeros((N,))
    times = [float(k) for k in range(steps + 1)]
    m = M()
    pt = f.ParticleTrajectory(m, N, resample=0, filter='PF', T=h.p.get('T'))
    h.same(len(pt), 0, 'no steps before the first call')
    if meas:
        pt.measure(y[0])
        h.same(len(pt), 1, 'a first measurement creates the first step')
        h.same([int(a) for a in pt[0].ancestors], list(range(N)), 'initial ancestors are the particles themselves')
        h.same(log, [('init',), ('measure', 0)], 'the first measurement is applied before any time update')
    for k in range(steps):
        pt.forward(u[k], y[k + 1])
        h.same(len(pt), k + 2, 'one more step per call')
        h.same([int(a) for a in pt[0].ancestors], list(range(N)), 'initial ancestors are the particles themselves')
        for i in range(k + 1):
            h.eq(pt.uvec[i], u[i], 'u_k is stored at index k')
            h.eq(pt.tvec[i + 1], times[i + 1], 'time k is stored at index k')
            if y[i + 1] is None:
                h.same(pt.yvec[i + 1] is None, True, 'a missing measurement stays missing')
            else:
                h.eq(pt.yvec[i + 1], y[i + 1], 'y_k is stored at index k')
        h.eq(pt.tvec[0], 0, 'time starts at 0')
        if meas and y[0] is not None:
            h.eq(pt.yvec[0], y[0], 'y_0 is stored at index 0')
        else:
            h.same(pt.yvec[0] is None, True, 'no y_0 without a first measurement')
    ups = [x for x in log if x[0] == 'update']
    h.same(ups, [('update', k) for k in range(steps)], 'one time update per call, in order')
    want = [k for k in range(steps + 1) if y[k] is not None]
    h.same([x[1] for x in log if x[0] == 'measure' and y[x[1]] is not None], want, 'every measurement is applied exactly once, in order')
    h.same([x[0] for x in log].count('init'), 1, 'the initial distribution is sampled once')


info('C11', 'up to 4 forward calls, optionally preceded by a measurement, storage grown or preallocated (too short, exact, too long), scalar and vector data, all data values, missing measurements',
     ['the user model is abstract and checks what it is handed'])
for kw in [dict(steps=3), dict(steps=3, meas=True), dict(steps=3, meas=True, T=4), dict(steps=3, T=6), dict(steps=4, T=2, meas=True), dict(steps=4, T=3, meas=True, missing=(2,)),
           dict(steps=3, missing=(1, 3), meas=True), dict(steps=2, dim=2, meas=True, T=5), dict(steps=2, dim=1), dict(steps=3, missing=(1, 2, 3)), dict(steps=2, T=1), dict(steps=1, dim=2, missing=(1,), T=2)]:
    add('C11', label('calls', kw), c11, dict(kw, N=2))
add('C11', 'calls-8', c11, dict(steps=8, meas=True, N=1, missing=(4,)), tier='thorough')


# ------------------------------------------------------------------ C12
def simple_model(h, D, calls, flat=False):
    I = h.mod('pyparticleest.interfaces')

    class M(I.ParticleFiltering, I.FFBSiRS, I.SampleProposer, I.AuxiliaryParticleFiltering):
        n = 0

        def tick(self, k, *a):
            calls.append((k,) + a)
            M.n += 1
            return M.n

        def create_initial_estimate(self, N):
            return h.vec('x%d' % self.tick('init', N), N, D)

        def sample_process_noise(self, particles, u, t):
            return h.vec('v%d' % self.tick('noise'), len(particles), D)

        def update(self, particles, u, t, noise):
            self.tick('update', u, t)
            particles[:] = particles + noise
            return particles

        def logs(self, nm, n):
            out = h.zeros((n,))
            if flat:
                return out
            for i in range(n):
                out[i] = h.log(h.pos('%s%d' % (nm, i)))
            return out

        def measure(self, particles, y, t):
            return self.logs('L%d_' % self.tick('measure', y, t), len(particles))

        def logp_xnext(self, particles, next_part, u, t):
            return self.logs('F%d_' % self.tick('xnext', u, t), len(particles))

        def logp_xnext_max(self, particles, u, t):
            return self.logs('M%d_' % self.tick('max', u, t), 1)[0]

        def eval_1st_stage_weights(self, particles, u, y, t):
            return self.logs('A%d_' % self.tick('first', u, y, t), len(particles))

        def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            n = len(anc) if ptraj is not None else len(find) if find is not None else 1
            return h.vec('p%d' % self.tick('proposal'), n, D)

        def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            return self.logs('Q%d_' % self.tick('logq'), len(prop_part))

        def eval_logp_x0(self, particles, t):
            return self.logs('I%d_' % self.tick('logx0'), len(particles))

        def set_params(self, p):
            self.params = p
    return M()


def c12(h):
    sim = h.mod('pyparticleest.simulator')
    P = h.p
    N, M, D, L, meas = P['N'], P['M'], P['D'], P['L'], P.get('meas', False)
    calls = []
    m = simple_model(h, D, calls)
    y = [h.real('y%d' % k) for k in range(L)]
    u = [h.real('u%d' % k) for k in range(L)] if P.get('u', True) else None
    yy = list(y)
    s = sim.Simulator(m, u, yy)
    theta = h.vec('theta', 2)
    th0 = theta.copy()
    s.set_params(theta)
    h.eq(m.params, th0, 'parameters are handed to the model')
    theta[0] = theta[0] + 1
    h.eq(m.params, th0, 'parameters are copied')
    h.eq(s.params, th0, 'parameters are remembered')
    res = P.get('res', 0.67)
    if res is None:
        res = h.unit('res')
    kw = dict(filter=P.get('filter', 'PF'), smoother=P.get('smoother', 'full'), res=res, meas_first=meas)
    if P.get('opts'):
        kw['smoother_options'] = P['opts']
    nchoice = len(h.choices)
    count = s.simulate(N, M, **kw)
    T = L if meas else L + 1
    h.same(len(s.pt), T, 'one step per time instant')
    off = 0 if meas else 1
    # pairing of data, as the model saw it
    ups = [c for c in calls if c[0] == 'update'][:T - 1]
    h.same(len(ups), T - 1, 'one time update per transition')
    for k, (_, uu, t) in enumerate(ups):
        h.eq(t, k, 'transition k has time k')
        if u is None:
            h.same(uu is None, True, 'no input when none was given')
        else:
            h.eq(uu, u[k], 'input k belongs to the transition out of step k')
    ms = [c for c in calls if c[0] == 'measure'][:L]
    h.same(len(ms), L, 'every measurement is used once by the filter')
    for k, (_, yv, t) in enumerate(ms):
        h.eq(yv, y[k], 'measurements are used in order')
        h.eq(t, k + off, 'measurement belongs to its step')
    if P.get('filter') == 'APF':
        fs = [c for c in calls if c[0] == 'first']
        h.same(len(fs), T - 1, 'first stage weights once per step')
    h.same([c[1] for c in calls if c[0] == 'init'][0], N, 'the requested number of particles')
    # number of resamplings from the stored weights
    if P.get('filter', 'PF') == 'PF':
        want = 0
        tie = 0
        for k in range(T - 1):
            if k == 0 and not meas and isinstance(res, float) and res == 1:
                tie = 1     # uniform weights: Neff equals N up to rounding
                continue
            q = [h.exp(s.pt[k].pa.w[i]) for i in range(N)]
            s1, s2 = total(h, q), total(h, [x * x for x in q])
            if not (isinstance(res, (int, float)) and res == 0) and h.less(s1 * s1, res * N * s2):
                want += 1
        h.same(want <= int(count) <= want + tie, True, 'resamplings are counted')
    # estimates
    est, w = s.get_filtered_estimates()
    mean = s.get_filtered_mean()
    h.same(np.shape(est), (T, N, D), 'shape of the filtered estimates')
    h.same(np.shape(w), (T, N), 'shape of the weights')
    for k in range(T):
        h.eq(est[k], s.pt[k].pa.part, 'filtered estimates are the particles of the step')
        q = [h.exp(s.pt[k].pa.w[i]) for i in range(N)]
        tot = total(h, q)
        for i in range(N):
            h.eq(w[k, i] * tot, q[i], 'weights of the step, normalised')
        for d in range(D):
            acc = h.const(0)
            for i in range(N):
                acc = acc + q[i] * s.pt[k].pa.part[i, d]
            h.eq(mean[k, d] * tot, acc, 'filtered mean is the weighted average')
    if M and P.get('smoother', 'full') is not None:
        se = s.get_smoothed_estimates()
        sm = s.get_smoothed_mean()
        h.same(np.shape(se), (T, M, D), 'shape of the smoothed estimates')
        h.same(np.shape(sm), (T, D), 'shape of the smoothed mean')
        for k in range(T):
            h.eq(se[k], s.straj.traj[k].pa.part, 'smoothed estimates are the trajectories')
            for d in range(D):
                acc = h.const(0)
                for j in range(M):
                    acc = acc + se[k, j, d]
                h.eq(M * sm[k, d], acc, 'smoothed mean is the average')
        # the same smoother called directly with the same random numbers gives the same trajectories
        if len(h.choices) == nchoice:
            h.counter.clear()
            type(m).n = 0
            s0 = sim.Simulator(m, u, list(y))
            s0.simulate(N, 0, filter=kw['filter'], smoother=None, res=res, meas_first=meas)
            direct = s0.pt.perform_smoothing(M, method=P.get('smoother', 'full'), smoother_options=P.get('opts'))
            for k in range(T):
                h.eq(se[k], direct.traj[k].pa.part, 'the chosen smoother runs with the chosen options')
    else:
        h.same(s.straj is None, True, 'no smoothing unless asked for')
    h.same(len(yy), L, 'the measurements of the user are unchanged')
    # what was handed out belongs to the caller
    for k in range(T):
        mine = [s.pt[k].pa.part.copy(), s.pt[k].pa.w.copy()]
        est[k] = est[k] + 1
        w[k] = w[k] + 1
        mean[k] = mean[k] + 1
        h.eq(s.pt[k].pa.part, mine[0], 'changing the returned estimates leaves the filter alone')
        h.eq(s.pt[k].pa.w, mine[1], 'changing the returned weights leaves the filter alone')
    if M and P.get('smoother', 'full') is not None:
        for k in range(T):
            mine = s.straj.traj[k].pa.part.copy()
            se[k] = se[k] + 1
            sm[k] = sm[k] + 1
            h.eq(s.straj.traj[k].pa.part, mine, 'changing the returned estimates leaves the trajectories alone')


def c12_options(h):
    """Every smoother runs without any options."""
    sim = h.mod('pyparticleest.simulator')
    M, D, L, meas = h.p['M'], 1, h.p['L'], h.p['meas']
    calls = []
    m = simple_model(h, D, calls, flat=True)
    s = sim.Simulator(m, None, [h.real('y%d' % k) for k in range(L)])
    s.simulate(h.p['N'], M, smoother=h.p['smoother'], meas_first=meas)
    T = L if meas else L + 1
    se = s.get_smoothed_estimates()
    h.same(np.shape(se), (T, M, D), 'one state per step and trajectory without options')
    for k in range(T):
        h.eq(se[k], s.straj.traj[k].pa.part, 'smoothed estimates are the trajectories')


def c12_named(h):
    """The filter asked for by its name, in any spelling, is the one that is run."""
    f, sim = h.mod(FILTER), h.mod('pyparticleest.simulator')
    P = h.p
    N, filt, L, res, meas = P['N'], P['filter'], P['L'], P.get('res', 1.0), P.get('meas', False)
    m = build(h, nonmarkov=False)
    c, _ = cond_traj(h, f, m, L + 1)
    us, ys = [10.0 + k for k in range(L)], [20.0 + k + (not meas) for k in range(L)]
    tape = dict(h.counter)
    got = []
    cls = dict(pf=f.ParticleFilter, apf=f.AuxiliaryParticleFilter, sir=f.SIR, pfy=f.FFPropY, cpf=f.CPF, cpfas=f.CPFAS, csiras=f.CSIRAS, cpfyas=f.CPFYAS)[filt.lower()]
    for run in range(2):
        h.counter.clear()
        h.counter.update(tape)
        m.prov.n.clear()
        if run == 0:
            s = sim.Simulator(m, us, ys)
            s.simulate(N, 0, filter=filt, filter_options={'cond_traj': c} if filt.lower()[0] == 'c' else None, smoother=None, res=res, meas_first=meas)
            traj = s.pt.traj
        else:
            kw = dict(cond_traj=c) if filt.lower()[0] == 'c' else dict(res=res)
            if 'y' in filt.lower():
                kw['N'] = N
            pf = cls(model=m, **kw)
            y, u, t = h.arr(ys if meas else [0.0] + ys), h.arr(us), h.arr([float(k) for k in range(L + 1)])
            if meas and 'y' in filt.lower():
                pa = pf.measure(traj=[], ancestors=np.arange(N), pa=None, uvec=u, yvec=y, tvec=t, cur_ind=0, inplace=False)
            else:
                pa = f.ParticleApproximation(particles=pf.create_initial_estimate(N))
                if meas:
                    pf.measure(traj=[], ancestors=np.arange(N), pa=pa, uvec=u, yvec=y, tvec=t, cur_ind=0, inplace=True)
            traj = [f.TrajectoryStep(pa, ancestors=np.arange(N))]
            for k in range(L - meas):
                pa, _, anc = pf.forward(traj=traj, yvec=y, uvec=u, tvec=t, cur_ind=k)
                traj.append(f.TrajectoryStep(pa, ancestors=anc))
        got.append([(st.pa.part.copy(), st.pa.w.copy(), [int(a) for a in st.ancestors]) for st in traj])
    h.same(len(got[0]), len(got[1]), 'number of steps')
    for (p1, w1, a1), (p2, w2, a2) in zip(*got):
        h.same(a1, a2, 'ancestors of the filter asked for')
        h.eq(p1, p2, 'particles of the filter asked for')
        h.eq(w1, w2, 'weights of the filter asked for')


info('C12', 'N<=3 particles, M<=3 trajectories, D<=2, up to 3 measurements, both conventions for the first measurement, filters PF and APF, several smoothers; all particle, weight and data values',
     ['the user model returns arbitrary particles and densities'])
for kw in [dict(N=2, M=1, D=2, L=2), dict(N=2, M=2, D=1, L=2, meas=True, res=None), dict(N=3, M=2, D=2, L=1), dict(N=3, M=3, D=2, L=1, meas=True, smoother='ancestor'),
           dict(N=2, M=0, D=2, L=2, meas=True, res=1.0), dict(N=2, M=2, D=2, L=1, smoother=None, res=0), dict(N=2, M=1, D=1, L=2, filter='APF', smoother='ancestor'),
           dict(N=2, M=1, D=2, L=1, smoother='mcmc', opts={'R': 2}), dict(N=2, M=1, D=1, L=1, smoother='rs', opts={'R': 1}), dict(N=2, M=1, D=1, L=2, u=False, smoother='ancestor', res=1.0)]:
    add('C12', label('simulate', {k: v for k, v in kw.items()}), c12, kw, runs=4)
for sm, kw in [('full', dict(N=2, M=2)), ('mcmc', dict(N=1, M=1)), ('rs', dict(N=1, M=2)), ('rsas', dict(N=1, M=2)), ('ancestor', dict(N=2, M=2)),
               ('mhips', dict(N=1, M=1)), ('mhips_reduced', dict(N=1, M=1)), ('mhbp', dict(N=1, M=1))]:
    add('C12', 'no-options-' + sm, c12_options, dict(kw, L=1 + (sm in ('full', 'rs', 'mhbp')), meas=sm in ('full', 'rs', 'mcmc', 'mhbp'), smoother=sm))
for sm in ('mhips', 'mhips_reduced', 'mhbp'):
    add('C12', 'one-step-' + sm, c12_options, dict(N=1, M=1, L=1, meas=True, smoother=sm))
for filt, kw in [('pf', {}), ('PF', dict(meas=True)), ('Apf', {}), ('APF', dict(res=0, meas=True)), ('sir', {}), ('SIR', dict(res=0)), ('pfy', dict(meas=True)), ('PFY', dict(meas=True, res=0)),
                 ('cpf', {}), ('CPFAS', {}), ('cpfas', dict(meas=True)), ('csiras', {}), ('CSIRAS', {}), ('cpfyas', dict(meas=True)), ('CPFYAS', dict(meas=True))]:
    add('C12', label('named-' + filt, kw), c12_named, dict(kw, filter=filt, N=2, L=2), runs=3)
add('C12', 'simulate-3', c12, dict(N=3, M=1, D=2, L=2, res=None), tier='thorough', runs=4)


# ------------------------------------------------------------------ C19
def c19(h):
    I = h.mod('pyparticleest.interfaces')
    f = h.mod(FILTER)
    N, T, D = h.p['N'], h.p['T'], 2
    got = []

    class M(I.ParticleFiltering, I.FFBSiRS):
        def create_initial_estimate(self, n):
            return h.zeros((n, D))

        def sample_process_noise(self, particles, u, t):
            got.append(('noise', particles, u, t))
            return 'noise'

        def update(self, particles, u, t, noise):
            got.append(('update', particles, u, t, noise))
            return 'update'

        def measure(self, particles, y, t):
            got.append(('measure', particles, y, t))
            return 'measure'

        def logp_xnext(self, particles, next_part, u, t):
            got.append(('xnext', particles, next_part, u, t))
            return 'xnext'

        def logp_xnext_max(self, particles, u, t):
            got.append(('max', particles, u, t))
            return 'max'
    m = M()
    parts = [h.vec('p%d' % k, N, D) for k in range(T)]
    u, y, t = h.vec('u', T), h.vec('y', T), h.vec('t', T)
    anc = np.array([h.choose(N, 'anc') for _ in range(N)], dtype=int)
    traj = [f.TrajectoryStep(f.ParticleApproximation(p), np.arange(N)) for p in parts]
    new = h.vec('n', N, D)
    k = h.p['k']

    def last(kind, n):
        h.same(len(got), n, 'one call of the model method')
        h.same(got[-1][0], kind, 'the matching model method is called')
        return got[-1][1:]
    r = m.sample_process_noise_full(ptraj=traj[:k + 1], ancestors=anc, ut=u[:k + 1], tt=t[:k + 1])
    a = last('noise', 1)
    h.same(r, 'noise', 'result is handed back')
    h.eq(a[0], parts[k][anc], 'noise for the ancestors in the last step')
    h.eq(a[1], u[k], 'input of the current step')
    h.eq(a[2], t[k], 'time of the current step')
    r = m.update_full(particles=new, traj=traj[:k + 1], uvec=u[:k + 1], yvec=y[:k + 1], tvec=t[:k + 1], ancestors=anc, noise='v')
    a = last('update', 2)
    h.same((r, a[0] is new, a[3]), ('update', True, 'v'), 'the particles are updated with the noise')
    h.eq(a[1], u[k], 'input of the current step')
    h.eq(a[2], t[k], 'time of the current step')
    r = m.measure_full(particles=new, traj=traj[:k], uvec=u, yvec=y[:k + 1], tvec=t[:k + 1], ancestors=anc)
    a = last('measure', 3)
    h.same((r, a[0] is new), ('measure', True), 'the particles are measured')
    h.eq(a[1], y[k], 'measurement of the current step')
    h.eq(a[2], t[k], 'time of the current step')
    find = np.array([h.choose(N, 'find') for _ in range(N)], dtype=int)
    fut = traj[k + 1:]
    r = m.logp_xnext_full(new, traj[:k], anc, fut, find, ut=u, yt=y, tt=t, cur_ind=k)
    a = last('xnext', 4)
    h.same(r, 'xnext', 'result is handed back')
    h.eq(a[0], new, 'transition from the given particles')
    h.eq(a[1], parts[k + 1][find], 'transition into the selected next particles')
    h.eq(a[2], u[k], 'input of the step asked about')
    h.eq(a[3], t[k], 'time of the step asked about')
    r = m.logp_xnext_singlestep(new, traj[:k], anc, parts[k + 1], find, ut=u, yt=y, tt=t, cur_ind=k)
    a = last('xnext', 5)
    h.same(r, 'xnext', 'result is handed back')
    h.eq(a[0], new, 'transition from the given particles')
    h.eq(a[1], parts[k + 1][find], 'transition into the selected next particles')
    h.eq(a[2], u[k], 'input of the step asked about')
    h.eq(a[3], t[k], 'time of the step asked about')
    r = m.logp_xnext_max_full(new, traj[:k], anc, u, y, t, k)
    a = last('max', 6)
    h.same(r, 'max', 'result is handed back')
    h.eq(a[0], new, 'bound for the given particles')
    h.eq(a[1], u[k], 'input of the step asked about')
    h.eq(a[2], t[k], 'time of the step asked about')
    # copies
    src = h.vec('s', N, D)
    src0 = src.copy()
    for what, r, want in [('copy_ind', m.copy_ind(src, anc), src0[anc]), ('copy_ind of all', m.copy_ind(src), src0),
                          ('sample_smooth', m.sample_smooth(src, traj[:k], anc, fut, find, u, y, t, k), src0),
                          ('cond_predict_single_step', m.cond_predict_single_step(part=new, past_trajs=traj[:k], pind=anc, future_parts=src, find=find, ut=u, yt=y, tt=t, cur_ind=k), src0),
                          ('cond_sampled_initial', m.cond_sampled_initial(src, t[0]), src0),
                          ('copy_ind of the SIR interface', I.SIR.copy_ind(m, src, anc), src0[anc]), ('copy_ind of all of the SIR interface', I.SIR.copy_ind(m, src), src0),
                          ('sample_smooth of the SIR interface', I.SIR.sample_smooth(m, src, traj[:k], anc, fut, find, u, y, t, k), src0)]:
        h.eq(r, want, '%s returns the selected particles' % what)
        r[0, 0] = r[0, 0] + 1
        r[:, 1] = 0
        h.eq(src, src0, '%s returns an independent copy' % what)


info('C19', 'N<=3 particles, up to 4 steps, every index selection, all particle and data values', ['none'])
for N, T, k in [(2, 3, 1), (2, 4, 2), (2, 2, 0)]:
    add('C19', 'N%d-T%d-k%d' % (N, T, k), c19, dict(N=N, T=T, k=k), runs=4)
add('C19', 'N3-T3-k1', c19, dict(N=3, T=3, k=1), runs=4, tier='thorough')
