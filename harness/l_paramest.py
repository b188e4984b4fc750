"""C37-C40: parameter estimation."""
import inspect
import numpy as np
from engine.cases import add, info, label
from harness import absmodel

PI = 'pyparticleest.paramest.interfaces'
PE = 'pyparticleest.paramest.paramest'
FILTER = 'pyparticleest.filter'
SM = 'pyparticleest.smoother'


def total(h, vals):
    acc = h.const(0)
    for v in vals:
        acc = acc + v
    return acc


def make_straj(h, parts, u, y, t, model=None):
    """smoothed trajectories with these states"""
    F = h.mod(FILTER)
    st = object.__new__(h.mod(SM).SmoothTrajectory)
    T, M = len(parts), len(parts[0])
    st.traj = np.empty((T,), dtype=object)
    for k in range(T):
        st.traj[k] = F.TrajectoryStep(F.ParticleApproximation(parts[k]), np.arange(M))
    st.M, st.u, st.y, st.t, st.model = M, u, y, t, model
    return st


# ------------------------------------------------------------------ C37
class Terms(object):
    """per step terms of an arbitrary model: arbitrary numbers, per particle or already summed"""

    def __init__(self, h, T, M, D, nth, how, miss=(), seq=None):
        self.h, self.T, self.M, self.D, self.nth, self.how = h, T, M, D, nth, how
        self.parts = [h.vec('x%d' % k, M, D) for k in range(T)]
        self.u = h.vec('u', T, 1)
        self.y = [None if k in miss else h.vec('y%d' % k, 2) for k in range(T)]
        self.t = [10.0 + k for k in range(T)]
        self.miss = miss
        self.par = None
        self.kept = {}        # arrays the model hands out are its own

    def keep(self, tag, v):
        self.kept.setdefault(tag, []).append((v, v.copy()))
        return v

    def untouched(self):
        for tag, l in self.kept.items():
            for v, was in l:
                self.h.eq(v, was, 'arrays the model hands out are left alone')

    def step(self, t, what):
        k = int(round(float(t if not hasattr(t, 'r') else t.r.const()))) - 10
        if not 0 <= k < self.T:
            self.h.fail('%s: time of a step' % what, 'time %s' % t)
        return k

    def val(self, kind, k):
        """value handed out by the model, and its sum over the trajectories"""
        h = self.h
        tag = '%s%s%d' % (self.tag(), kind, k)
        if self.how.get(kind, 'arr') == 'arr':
            v = h.vec(tag, self.M)
            return self.keep(tag, v.copy()), total(h, list(v))
        if self.how[kind] == 'col':
            v = h.vec(tag, self.M, 1)
            return self.keep(tag, v.copy()), total(h, list(v.reshape((-1,))))
        v = h.real(tag)
        return v, v

    def tag(self):
        return '' if self.par is None else 'p%d_' % self.par

    def grad(self, kind, k):
        tag = '%sG%s%d' % (self.tag(), kind, k)
        return self.keep(tag, self.h.vec(tag, self.nth))

    def chk(self, what, particles, k, nxt=None, u=None, y=None):
        h = self.h
        h.eq(particles, self.parts[k], '%s: states of the step' % what)
        if nxt is not None:
            h.eq(nxt, self.parts[k + 1], '%s: states of the next step' % what)
            h.eq(u, self.u[k], '%s: input of the earlier step' % what)
        if y is not None:
            h.same(k in self.miss, False, '%s: a missing measurement is not evaluated' % what)
            h.eq(y, self.y[k], '%s: measurement of the step' % what)

    def straj(self):
        h = self.h
        y = np.empty((self.T,), dtype=object)
        for k in range(self.T):
            y[k] = self.y[k]
        return make_straj(h, [p.copy() for p in self.parts], self.u, y, self.h.arr(self.t))

    def sums(self):
        """averaged terms: initial, transitions, measurements, and their gradients"""
        h, T, M = self.h, self.T, self.M
        v = [self.val('I', 0)[1] / M, total(h, [self.val('F', k)[1] for k in range(T - 1)]) / M,
             total(h, [self.val('L', k)[1] for k in range(T) if k not in self.miss]) / M]
        g = [[self.grad(kind, k) for k in ks] for kind, ks in (('I', [0]), ('F', range(T - 1)), ('L', [k for k in range(T) if k not in self.miss]))]
        g = [h.mkarr([total(h, [x[j] for x in gs]) / M for j in range(self.nth)], (self.nth,)) for gs in g]
        return v, g

    def model(self, *bases, default=False):
        S, h = self, self.h

        class Mod(*bases):
            def set_params(self, params):
                self.params = h.np.copy(params)
                if hasattr(S, 'seen'):
                    S.par = S.seen(self.params)

            def eval_logp_x0(self, particles, t):
                S.chk('initial term', particles, S.step(t, 'initial term'))
                h.same(S.step(t, 'initial term'), 0, 'initial term at the first step')
                return S.val('I', 0)[0]

            def eval_logp_x0_val_grad(self, particles, t):
                return self.eval_logp_x0(particles, t), S.grad('I', 0)

            def xnext(self, particles, nxt, u, t):
                k = S.step(t, 'transition')
                h.same(k < S.T - 1, True, 'transitions end at the last step')
                S.chk('transition', particles, k, nxt, u)
                return S.val('F', k)[0]

            def eval_logp_xnext_val_grad(self, particles, particles_next, u, t):
                return self.xnext(particles, particles_next, u, t), S.grad('F', S.step(t, 'transition'))

            def like(self, particles, y, t):
                k = S.step(t, 'likelihood')
                S.chk('likelihood', particles, k, y=y)
                return S.val('L', k)[0]

            def eval_logp_y_val_grad(self, particles, y, t):
                return self.like(particles, y, t), S.grad('L', S.step(t, 'likelihood'))
            if default:
                def logp_xnext(self, particles, next_part, u, t):
                    return self.xnext(particles, next_part, u, t)

                def measure(self, particles, y, t):
                    return self.like(particles, y, t)
            else:
                def eval_logp_xnext(self, particles, particles_next, u, t):
                    return self.xnext(particles, particles_next, u, t)

                def eval_logp_y(self, particles, y, t):
                    return self.like(particles, y, t)
        return Mod


def c37(h):
    P = h.p
    I = h.mod(PI)
    S = Terms(h, P['T'], P['M'], P['D'], P['nth'], P.get('how', {}), P.get('miss', ()))
    m = S.model(I.ParamEstInterface_GradientSearch, default=P.get('default', False))()
    m.params = h.vec('theta', P['nth'])
    st = S.straj()
    (_, vx, vy), (_, gx, gy) = S.sums()
    h.eq(m.eval_logp_xnext_fulltraj(st, st.u, st.t), vx, 'transition terms of every pair, averaged over the trajectories')
    h.eq(m.eval_logp_y_fulltraj(st, st.y, st.t), vy, 'measurement terms of every measured step, averaged over the trajectories')
    v, g = m.eval_logp_xnext_val_grad_fulltraj(st, st.u, st.t)
    h.eq(v, vx, 'value computed with the gradient of the transition terms')
    h.same(np.shape(g), (P['nth'],), 'one derivative per parameter')
    h.eq(g, gx, 'gradient of the transition terms')
    v, g = m.eval_logp_y_val_grad_fulltraj(st, st.y, st.t)
    h.eq(v, vy, 'value computed with the gradient of the measurement terms')
    h.same(np.shape(g), (P['nth'],), 'one derivative per parameter')
    h.eq(g, gy, 'gradient of the measurement terms')
    for k in range(S.T):
        h.eq(st.traj[k].pa.part, S.parts[k], 'trajectories are left alone')
    S.untouched()
    h.eq(st.get_smoothed_estimates(), h.mkarr([v for p in S.parts for v in p.reshape((-1,))], (S.T, S.M, S.D)), 'smoothed estimates are the states of the trajectories')


for kw in [dict(T=3, M=2, D=2, nth=1), dict(T=2, M=3, D=1, nth=2, miss=(0,)), dict(T=4, M=2, D=2, nth=2, miss=(1, 3), how=dict(F='sum', L='sum')), dict(T=3, M=2, D=1, nth=2, how=dict(F='sum')), dict(T=3, M=2, D=1, nth=1, how=dict(L='col', F='col')),
           dict(T=3, M=1, D=2, nth=3, miss=(0, 1, 2)), dict(T=1, M=2, D=2, nth=2), dict(T=3, M=2, D=2, nth=1, default=True, miss=(1,))]:
    add('C37', label('sum', kw), c37, kw, runs=3)
for kw in [dict(T=6, M=4, D=3, nth=3, miss=(2, 4)), dict(T=8, M=1, D=1, nth=1)]:
    add('C37', label('sum', kw), c37, kw, runs=3, tier='thorough')
info('C37', 'up to 4 steps (thorough 8), 3 trajectories (4), state dimension 2 (3), 3 parameters, every pattern of missing measurements listed; every state, input, measurement, term and derivative; terms per trajectory or already summed',
     ['the user model answers by arbitrary numbers and the arguments it is asked for are checked'])


# ------------------------------------------------------------------ C40
class Result(object):
    pass


def c40(h):
    P = h.p
    I = h.mod(PI)
    nth = P['nth']
    S = Terms(h, P['T'], P['M'], 1, nth, P.get('how', {}), P.get('miss', ()))
    theta0 = h.vec('theta0', nth)
    cands = [theta0] + [h.vec('cand%d' % i, nth) for i in range(P.get('nc', 2))]
    for a in range(len(cands)):
        for b in range(a):
            h.assume(h.ne(cands[a][0], cands[b][0]))
    state = {}

    def seen(p):
        h.same(np.shape(p)[0], nth, 'all parameters are set')
        h.eq(p.reshape((-1,)), cands[state['now']], 'the objective is evaluated for the candidate parameters')
        return state['now']
    S.seen = seen
    grad = P.get('grad', False)
    bases = (I.ParamEstBaseNumericGrad, I.ParamEstInterface_GradientSearch) if grad else (I.ParamEstInterface, I.ParamEstBaseNumeric)
    bounds = [(h.real('lo%d' % j), h.real('hi%d' % j)) for j in range(nth)] if P.get('bounds') else None
    kwargs = {}
    if P.get('base'):
        class Dynamics(object):
            def __init__(self, gain, offset=None):
                self.gain, self.offset = gain, offset
        bases += (Dynamics,)
        kwargs = dict(gain=h.real('gain'), offset=h.real('offset'))
    C = S.model(*bases)
    m = C(param_bounds=bounds, **kwargs) if P.get('bounds') != 'set' else C(**kwargs)
    for k, v in kwargs.items():
        h.eq(getattr(m, k), v, 'the other arguments reach the rest of the model')
    if P.get('bounds') == 'set':
        m.set_param_bounds(bounds)
    m.params = theta0.copy().reshape((-1, 1)) if P.get('col') else theta0.copy()
    st = S.straj()
    out = h.vec('best', nth)
    calls = []

    def handler(fun, x0, args=(), method=None, jac=None, bounds=None, tol=None, options=None):
        calls.append(bounds)
        h.same(np.ndim(x0), 1, 'the optimiser needs a flat vector')
        h.eq(x0, theta0, 'the search starts from the current parameters')
        if P.get('bounds'):
            for j in range(nth):
                h.eq(bounds[j][0], h.real('lo%d' % j), 'lower bound')
                h.eq(bounds[j][1], h.real('hi%d' % j), 'upper bound')
        order = list(range(len(cands))) + [0]
        for i in order:
            state['now'] = i
            x = cands[i].copy()
            r = fun(x, *args)
            S.par = i
            vs, gs = S.sums()
            if jac is True:
                f, g = r
            else:
                f = r
                g = jac(x.copy(), *args) if callable(jac) else None
            h.same(np.size(f), 1, 'the objective is a number')
            h.eq(h.np.asarray(f).reshape((-1,))[0] if np.ndim(f) else f, -1 * total(h, vs), 'the objective is minus the averaged complete-data log-likelihood')
            if grad:
                h.same(g is None, False, 'the analytic gradient is used')
            if g is not None:
                h.same(np.shape(g), (nth,), 'one derivative per parameter')
                h.eq(g, h.mkarr([-1 * total(h, [q[j] for q in gs]) for j in range(nth)], (nth,)), 'gradient of the objective')
            h.eq(x, cands[i], 'the candidate is left alone')
        res = Result()
        res.x, res.fun, res.success = out, h.const(0), True
        return res
    h.opt.handler = handler
    state['now'] = 0
    r = m.maximize(st)
    S.untouched()
    h.same(len(calls) >= 1, True, 'the optimiser is used')
    h.eq(r, h.vec('best', nth), 'the optimum is returned')


for kw in [dict(T=2, M=2, nth=2), dict(T=2, M=3, nth=1, miss=(0,), how=dict(I='sum')), dict(T=3, M=2, nth=2, how=dict(I='sum', F='sum', L='sum'), bounds='init'), dict(T=2, M=2, nth=2, col=True, bounds='set'),
           dict(T=2, M=2, nth=2, grad=True), dict(T=3, M=2, nth=2, grad=True, miss=(1,), how=dict(I='sum', F='sum', L='sum'), bounds='init'), dict(T=2, M=3, nth=3, grad=True, col=True, how=dict(I='sum')), dict(T=2, M=1, nth=1, grad=True, bounds='set'), dict(T=1, M=2, nth=2, grad=True), dict(T=2, M=1, nth=2, base=True, bounds='init'), dict(T=2, M=1, nth=1, base=True, bounds='set'),
           dict(T=2, M=1, nth=2, grad=True, base=True, bounds='init')]:
    add('C40', label('objective', kw), c40, kw, runs=3)
for kw in [dict(T=5, M=4, nth=4, grad=True, miss=(1, 3), nc=4), dict(T=5, M=4, nth=4, how=dict(F='sum'), nc=4)]:
    add('C40', label('objective', kw), c40, kw, runs=3, tier='thorough')
info('C40', 'up to 3 steps (thorough 5), 3 trajectories (4), 3 parameters (4), 3 candidate parameter vectors (5); every value, derivative, bound and candidate',
     ['scipy.optimize.minimize is replaced by a harness that evaluates the objective at arbitrary candidates and returns an arbitrary optimum', 'the user model answers by arbitrary numbers for every candidate and the arguments it is asked for are checked'])


# ------------------------------------------------------------------ C38, C39
def sim_args(cls, a, kw):
    b = inspect.signature(cls.simulate).bind(None, *a, **kw)
    b.apply_defaults()
    return b.arguments


def stub(h, base, model, log, make):
    """the estimator with its simulation replaced by one that returns arbitrary trajectories"""
    Est = getattr(h.mod(PE), base)
    Sim = h.mod('pyparticleest.simulator').Simulator

    class E(Est):
        def simulate(self, *a, **kw):
            args = sim_args(Sim, a, kw)
            log.append(('sim', args))
            make(self, args)
            return 0
    return E(model, u=[0.0, 0.0], y=[0.0, 0.0])


def c38(h):
    P = h.p
    n = P['iters']
    log = []

    class Model(object):
        def set_params(self, p):
            log.append(('set', h.np.copy(p)))

        def maximize(self, straj):
            log.append(('max', straj))
            return h.vec('theta%d' % (sum(1 for e in log if e[0] == 'max')), 2)

    trajs = []

    def make(est, args):
        trajs.append(object())
        est.straj = trajs[-1]
    est = stub(h, 'ParamEstimation', Model(), log, make)
    th0 = h.vec('theta0', 2)
    arg0 = th0.copy()
    np_, nt = P['num_part'], P['num_traj']
    opts = dict(R=17)
    kw = dict(max_iter=n)
    if P.get('opts'):
        kw.update(filter='APF', smoother='mcmc', smoother_options=opts, meas_first=True)
    if P.get('cb'):
        kw.update(callback=lambda params, Q, cur_iter: log.append(('cb', params, cur_iter)), callback_sim=lambda e: log.append(('cbs', e)))
    r = est.maximize(arg0, np_, nt, **kw)
    ev = iter(log)
    for i in range(n):
        cur = h.vec('theta%d' % i, 2)
        e = next(ev)
        h.same(e[0], 'set', 'parameters are set before simulating')
        h.eq(e[1], cur, 'the newest parameters are used for the simulation')
        e = next(ev)
        h.same(e[0], 'sim', 'one simulation per iteration')
        a = e[1]
        at = lambda s: s if np.isscalar(s) else s[min(i, len(s) - 1)]
        h.same((a['num_part'], a['num_traj']), (at(np_), at(nt)), 'particles and trajectories follow their schedule')
        h.same((a['filter'].lower(), a['smoother'], a['meas_first']), ('apf', 'mcmc', True) if P.get('opts') else ('pf', 'full', False), 'filter and smoother are passed on')
        h.same(a['smoother_options'], opts if P.get('opts') else None, 'smoother options are passed on')
        if P.get('cb'):
            e = next(ev)
            h.same(e[0] == 'cbs' and e[1] is est, True, 'callback after the simulation')
        e = next(ev)
        h.same(e[0] == 'max' and e[1] is trajs[-1 - (n - 1 - i)], True, 'the newest trajectories are maximised')
        if P.get('cb'):
            e = next(ev)
            h.same(e[0], 'cb', 'callback after the iteration')
            h.eq(e[1], h.vec('theta%d' % (i + 1), 2), 'callback sees the new parameters')
            h.same(e[2], i, 'iteration number')
    h.same(list(ev), [], 'stops after the given number of iterations')
    h.eq(r[0], h.vec('theta%d' % n, 2), 'the parameters of the last iteration are returned')
    h.eq(arg0, th0, 'the initial parameters are left alone')


def c38_run(h):
    """with the real filter and smoother: every iteration smooths afresh with the newest parameters"""
    P = h.p
    n = P['iters']
    state = {'v': None, 'max': 0}

    def extra(cls, prov):
        class C(cls):
            def set_params(self, p):
                for v in range(n + 1):
                    if num(p[0]) == 100 + v:
                        state['v'] = v
                        return
                h.fail('known parameters', str(p))

            def create_initial_estimate(self, N):
                k = prov.count('init')
                return self.arr([prov.new('x0', state['v'], k, i) for i in range(N)])

            def update(self, particles, u, t, noise):
                r = cls.update(self, particles, u, t, noise)
                return r

            def maximize(self, straj):
                h.same(state['v'], state['max'], 'the newest parameters are set')
                h.same(straj is est.straj, True, 'the newest trajectories are maximised')
                for j in range(len(straj.traj[0].pa.part)):
                    x0 = prov.id(straj.traj[0].pa.part[j])
                    h.same(prov.key(x0)[1], state['v'], 'trajectories are smoothed with the newest parameters')
                state['max'] += 1
                return h.arr([100.0 + state['max']])
        return C
    m = absmodel.build(h, extra=extra)
    est = h.mod(PE).ParamEstimation(m, u=[1.0] * P['L'], y=[2.0 + k for k in range(P['L'])])
    seen = []
    r = est.maximize(h.arr([100.0]), P['N'], P['M'], max_iter=n, smoother=P['smoother'], callback=lambda params, Q, cur_iter: seen.append(num(params[0])))
    h.same(num(r[0][0]), 100 + n, 'the parameters of the last iteration are returned')
    h.same(seen, [101.0 + i for i in range(n)], 'callback sees the new parameters')


num = absmodel.num

for kw in [dict(iters=1, num_part=3, num_traj=2), dict(iters=3, num_part=[5, 7], num_traj=4, cb=True), dict(iters=3, num_part=2, num_traj=[1, 2, 3, 4], opts=True), dict(iters=4, num_part=[3, 4, 5, 6], num_traj=[2, 1], opts=True, cb=True), dict(iters=2, num_part=np.array([2, 3]), num_traj=np.array([4]), cb=True)]:
    add('C38', 'loop-%d-%s-%s%s%s' % (kw['iters'], kw['num_part'], kw['num_traj'], '-opts' if kw.get('opts') else '', '-cb' if kw.get('cb') else ''), c38, kw, runs=3)
add('C38', 'run-ancestor', c38_run, dict(N=2, M=1, L=1, iters=2, smoother='ancestor'), runs=3)
add('C38', 'run-full', c38_run, dict(N=2, M=2, L=1, iters=2, smoother='full'), runs=3)
add('C38', 'run-3', c38_run, dict(N=2, M=1, L=1, iters=3, smoother='full'), runs=3, tier='thorough')
info('C38', 'up to 4 iterations, every parameter vector, scalar and tabulated numbers of particles and trajectories (tables shorter and longer than the run), with and without callbacks; whole runs of 2 iterations (thorough 3) with 2 particles',
     ['maximisation returns arbitrary parameters; in the loop cases the simulation is replaced by one recording its arguments'])


def c38_params(h):
    """parameters reach the model, which keeps its own column"""
    from harness.f_nlg import build
    from harness.h_mlnlg import Mix
    n = h.p['n']
    if h.p['model'] == 'nlg':
        m = build(h, 1, 1, 1, 'table', 'const')[0]
    else:
        m = Mix(h, 1, 1, 1, 1).model(ctor=dict(params=h.vec('old', n)))
        h.eq(m.params, h.vec('old', n).reshape((-1, 1)), 'parameters given first are kept')
    s = h.mod('pyparticleest.simulator').Simulator(m, u=[0.0], y=[0.0])
    th = h.vec('theta', n)
    for setp in (m.set_params, s.set_params):
        arg = th.reshape((n, 1)).copy() if h.p.get('col') else th.copy()
        setp(arg)
        arg[0] = arg[0] + 1
        h.same(np.shape(m.params), (n, 1), 'the model keeps the parameters as a column')
        h.eq(m.params, th.reshape((n, 1)), 'the model keeps a copy of the newest parameters')
        th = h.vec('theta2', n)
    h.eq(flatten(h, s.params), h.vec('theta2', n), 'the simulator keeps a copy of the newest parameters')


def flatten(h, x):
    return h.np.asarray(x).reshape((-1,))


for kw in [dict(model='nlg', n=2), dict(model='nlg', n=3, col=True), dict(model='mlnlg', n=2), dict(model='mlnlg', n=1, col=True)]:
    add('C38', label('params', kw), c38_params, kw, runs=2)


def c39_steps(h):
    """the default step sizes"""
    a = h.mod(PE).alpha_gen
    v = a(h.p['it'])
    h.true(h.lt(0, v), 'step sizes are positive')
    h.true(h.le(v, 1), 'step sizes are at most one')
    if h.p['it'] == 0:
        h.eq(v, 1, 'the first step size is one')


for it in (0, 1, 99, 100, 101, 102, 1000):
    add('C39', 'default-step-%d' % it, c39_steps, dict(it=it), runs=1)


class Pool(object):
    """reference: trajectories by number with their weights"""

    def __init__(self, h):
        self.h, self.ids, self.w = h, [], []

    def step(self, new, alpha, ws):
        self.w = [(1 - alpha) * w for w in self.w] + [alpha * w for w in ws]
        self.ids = self.ids + list(new)

    def drop(self, dead):
        keep = [i for i in range(len(self.ids)) if i not in dead]
        self.ids, self.w = [self.ids[i] for i in keep], [self.w[i] for i in keep]

    def norm(self):
        s = total(self.h, self.w)
        self.w = [w / s for w in self.w]

    def discard(self, eps, pct):
        """weights that are zero, or both at most eps and below the percentile"""
        h, w, n = self.h, self.w, len(self.w)
        dead = [i for i in range(n) if h.isz(w[i])]
        if pct and n:
            srt = []
            for x in w:
                k = 0
                while k < len(srt) and h.lessz(srt[k], x):
                    k += 1
                srt.insert(k, x)
            pos = h.f(pct * (n - 1), 100)
            lo = (pct * (n - 1)) // 100
            p = srt[lo] if lo * 100 == pct * (n - 1) else srt[lo] + (srt[lo + 1] - srt[lo]) * (pos - lo)
            dead += [i for i in range(n) if i not in dead and h.lessz(w[i], p) and not h.lessz(eps, w[i])]
        self.drop(dead)

    def match(self, all_, w, T, M):
        """the trajectories and weights handed to the maximisation are these"""
        h = self.h
        h.same(np.shape(all_)[0], T, 'trajectories cover every step')
        h.same((np.shape(all_)[1], np.shape(w)), (len(self.ids), (len(self.ids),)), 'one weight per kept trajectory')
        ids = [int(num(all_[0, j, 0])) for j in range(len(self.ids))]
        h.same(sorted(ids), sorted(self.ids), 'exactly the trajectories that should be kept')
        for j, i in enumerate(ids):
            for k in range(T):
                h.eq(all_[k, j], state(h, k, i), 'states of a kept trajectory')
            h.eq(w[j], self.w[self.ids.index(i)], 'a trajectory keeps its own weight')
        h.eq(total(h, list(w)), 1, 'weights sum to one')


def state(h, k, i):
    return h.mkarr([i, h.real('s%d_%d' % (k, i))], (2,))


def c39(h):
    """the stochastic approximation loop on arbitrary smoothed trajectories"""
    P = h.p
    which, n, T = P['which'], P['iters'], 2
    M = P.get('M', 1)
    F = h.mod(FILTER)
    h.isz = lambda x: bool(h.eqc(x, 0))
    h.lessz = lambda a, b: bool(h.lt(a, b))
    alphas = [h.const(1)]
    for k in range(1, n):
        a = P.get('alpha', {}).get(k, 'sym')
        if a == 'sym':
            a = h.unit('alpha%d' % k)
            h.assume(h.lt(0, a))
        else:
            a = h.const(a)
        alphas.append(a)
    pool = Pool(h)
    log = []
    count = [0]
    eps = h.pos('eps') if P.get('eps') else 0.0
    pct = P.get('pct', 0)
    y, u = [0.0] * T, [0.0] * T
    calls = dict(set=0, max=0, sim=0)
    M_of = lambda i: M if np.isscalar(M) else M[min(i, len(M) - 1)]
    np_ = P.get('num_part', 3)

    class Model(object):
        def set_params(self, p):
            h.eq(p, h.vec('theta%d' % calls['max'], 2), 'the newest parameters are set')
            calls['set'] += 1

        def maximize_weighted(self, straj, alltrajs, weights):
            h.same(straj is est.straj, True, 'the newest trajectories are handed over')
            pool.match(alltrajs, weights, T, M)
            calls['max'] += 1
            return h.vec('theta%d' % calls['max'], 2)

    def make(e, args):
        i = calls['sim']
        h.same(calls['set'] >= i + 1, True, 'parameters are set before simulating')
        calls['sim'] += 1
        want = (np_ if np.isscalar(np_) else np_[min(i, len(np_) - 1)], M_of(i))
        h.same((args['num_part'], args['num_traj']), want, 'particles and trajectories follow their schedule')
        h.same((args['filter'], args['meas_first']), (P.get('filter', 'cpfas'), True), 'the filter is passed on')
        h.same((args['smoother'], args['smoother_options']), (P.get('smoother', 'ancestor'), sopt), 'smoother and its options are passed on')
        if which == 'SAEM':
            h.same(args['filter_options'], fopt, 'filter options are passed on')
        else:
            ct = args['filter_options']['cond_traj']
            h.same(len(ct), T, 'the conditioned trajectory has one state per step')
            for k in range(T):
                h.eq(ct[k].pa.part[0], last[0][k], 'the filter is conditioned on the newest trajectory')
        ids = [count[0] + j for j in range(M_of(i))]
        count[0] += len(ids)
        parts = [h.mkarr([v for j in ids for v in state(h, k, j)], (len(ids), 2)) for k in range(T)]
        last[0] = [p[0].copy() for p in parts]
        e.straj = make_straj(h, parts, u, y, [0.0, 1.0])
        m = len(ids)
        pool.step(ids, alphas[i], [h.f(1, m)] * m)
        if which == 'SAEM':
            pool.drop([j for j in range(len(pool.w)) if h.isz(pool.w[j])])
        else:
            pool.discard(eps, pct)
            mt = P.get('max_traj', 0)
            if mt and len(pool.ids) > mt:
                pool.drop(range(len(pool.ids) - mt))
            pool.norm()
    est = stub(h, 'ParamEstimation' + which, Model(), log, make)
    first = [h.mkarr([900, h.real('c%d' % k)], (1, 2)) for k in range(T)]
    last = [[p[0].copy() for p in first]]
    ctraj = np.empty((T,), dtype=object)
    for k in range(T):
        ctraj[k] = F.TrajectoryStep(F.ParticleApproximation(first[k].copy()), np.arange(1))
    kw = dict(max_iter=n, meas_first=True, alpha_gen=lambda it: alphas[it], filter=P.get('filter', 'cpfas'), filter_options={'cond_traj': ctraj})
    fopt = dict(some='option')
    if which == 'SAEM':
        kw.update(num_traj=M, filter_options=fopt)
    else:
        kw.update(discard_eps=eps, discard_percentile=pct)
    if which == 'PSAEM':
        kw.update(M=M, max_traj=P.get('max_traj', 0))
    sopt = None if which == 'PSAEM' else dict(R=17)      # PSAEM takes no smoother options
    kw.update(smoother=P.get('smoother', 'ancestor'))
    if sopt is not None:
        kw.update(smoother_options=sopt)
    cbs = []
    stop = P.get('stop')

    def cb(params, Q, cur_iter):
        h.eq(params, h.vec('theta%d' % (len(cbs) + 1), 2), 'callback sees the new parameters')
        cbs.append(cur_iter)
        return len(cbs) == stop
    if P.get('cb', True):
        kw['callback'] = cb
    if P.get('cbs'):
        kw['callback_sim'] = lambda e: (h.same(e is est and calls['sim'] == calls['max'] + 1, True, 'callback after every simulation'), sims.append(1))
    sims = []
    th0 = h.vec('theta0', 2)
    arg0 = th0.copy()
    r = est.maximize(arg0, np_, **kw)
    m = stop or n
    h.same((calls['sim'], calls['max']), (m, m), 'stops after the given number of iterations or when the callback says so')
    h.same(len(sims), m if P.get('cbs') else 0, 'the simulation callback is called once per iteration')
    h.eq(r[0], h.vec('theta%d' % m, 2), 'the parameters of the last iteration are returned')
    h.eq(arg0, th0, 'the initial parameters are left alone')
    if P.get('cb', True):
        h.same(len(cbs), m, 'the callback is called once per iteration')
    if cbs:
        h.same(cbs, [cbs[0] + i for i in range(m)], 'iterations are numbered in order')
    for k in range(T):
        h.eq(ctraj[k].pa.part, first[k], 'the given conditioned trajectory is left alone')


def c39_run(h):
    """PSAEM with the real conditional filter: new trajectories are the ones of the filter, with its weights"""
    P = h.p
    n, N, L = P['iters'], P['N'], P['L']
    T = L
    st = {'max': 0}
    F = h.mod(FILTER)
    alphas = [h.const(1)] + [h.unit('alpha%d' % k) for k in range(1, n)]
    for a in alphas[1:]:
        h.assume(h.lt(0, a))
    pool = []

    def extra(cls, prov):
        class C(cls):
            def set_params(self, p):
                pass

            def maximize_weighted(self, straj, alltrajs, weights):
                i = st['max']
                st['max'] += 1
                pt = est.pt
                if P.get('rb'):
                    q = [h.exp(pt.traj[-1].pa.w[j]) for j in range(N)]
                    s = total(h, q)
                    new = []
                    for j in range(N):
                        a, line = j, []
                        for k in reversed(range(T)):
                            line.insert(0, prov.id(pt.traj[k].pa.part[a]))
                            a = int(pt.traj[k].ancestors[a])
                        new.append((tuple(line), q[j] / s))
                else:
                    new = [(tuple(prov.id(straj.traj[k].pa.part[j]) for k in range(T)), h.f(1, len(straj.traj[0].pa.part))) for j in range(len(straj.traj[0].pa.part))]
                if i:
                    prev = st['prev']
                    for k in range(T):
                        h.same(prov.id(pt.traj[k].pa.part[-1]), prev[k], 'the filter is conditioned on the newest trajectory')
                pool[:] = [(ln, (1 - alphas[i]) * w) for ln, w in pool] + [(ln, alphas[i] * w) for ln, w in new]
                pool[:] = [(ln, w) for ln, w in pool if not h.eqc(w, 0)]
                h.same((np.shape(alltrajs)[:2], np.shape(weights)), ((T, len(pool)), (len(pool),)), 'one weight per trajectory')
                for j, (ln, w) in enumerate(pool):
                    h.same(tuple(prov.id(alltrajs[k, j]) for k in range(T)), ln, 'trajectories are the ones of the filter')
                    h.eq(weights[j], w, 'weight of the trajectory')
                h.eq(total(h, list(weights)), 1, 'weights sum to one')
                st['prev'] = [prov.id(straj.traj[k].pa.part[0]) for k in range(T)]
                return h.arr([1.0])
        return C
    m = absmodel.build(h, extra=extra)
    est = h.mod(PE).ParamEstimationPSAEM(m, u=[1.0] * L, y=[2.0 + k for k in range(L)])
    ct = np.empty((T,), dtype=object)
    for k in range(T):
        ct[k] = F.TrajectoryStep(F.ParticleApproximation(m.arr([m.prov.new('c', k)])), np.arange(1))
    est.maximize(h.arr([1.0]), N, max_iter=n, meas_first=True, filter=P.get('filter', 'cpfas'), filter_options={'cond_traj': ct}, alpha_gen=lambda i: alphas[i], raoblackwell=P.get('rb', False))
    h.same(st['max'], n, 'one maximisation per iteration')


for kw in [dict(which='SAEM', iters=3, M=2), dict(which='SAEM', iters=3, M=[1, 3], num_part=[4, 5], alpha={1: 1}, cbs=True), dict(which='SAEM', iters=1, M=3, cb=False),
           dict(which='PSAEM', iters=3, M=1), dict(which='PSAEM', iters=2, M=2, eps=True, pct=50), dict(which='PSAEM', iters=3, M=1, eps=True, pct=60, cbs=True), dict(which='PSAEM', iters=4, M=1, max_traj=2), dict(which='PSAEM', iters=3, M=2, alpha={1: 1}, max_traj=3), dict(which='PSAEM', iters=2, M=1, cb=False), dict(which='PSAEM', iters=3, M=1, stop=2),
           dict(which='PSAEM2', iters=3, M=1), dict(which='PSAEM2', iters=3, M=1, eps=True, pct=60), dict(which='PSAEM2', iters=3, M=1, alpha={1: 1}, cbs=True), dict(which='PSAEM2', iters=4, M=1, alpha={2: 1}, cb=False), dict(which='PSAEM2', iters=2, M=1, cb=False, cbs=True), dict(which='PSAEM', iters=2, M=1, cb=False, cbs=True), dict(which='SAEM', iters=2, M=1, cb=False, cbs=True)]:
    add('C39', label('loop', kw), c39, kw, runs=3)
for kw in [dict(which='SAEM', iters=4, M=2), dict(which='PSAEM', iters=3, M=2, eps=True, pct=40), dict(which='PSAEM', iters=4, M=1, eps=True, pct=70, max_traj=3), dict(which='PSAEM2', iters=4, M=1, eps=True, pct=50)]:
    add('C39', label('loop', kw), c39, kw, runs=3, tier='thorough', budget=600)
for kw in [dict(iters=2, N=2, L=2), dict(iters=1, N=3, L=2, rb=True), dict(iters=2, N=2, L=2, filter='cpf', rb=True)]:
    add('C39', label('run', kw), c39_run, kw, runs=3)
add('C39', 'run-rb-cpfas', c39_run, dict(iters=2, N=2, L=2, rb=True), runs=3, tier='thorough', budget=600)
info('C39', 'up to 4 iterations, 3 trajectories per iteration, every step size in (0,1), 1 where listed, the first one 1; any threshold and the percentiles listed; whole conditional filter runs of 2 iterations with 2 particles and 2 steps',
     ['maximisation returns arbitrary parameters; in the loop cases the simulation is replaced by one returning arbitrary trajectories', 'the loops are started with a conditioned trajectory, as their filters need one'])
