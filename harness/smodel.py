"""The abstract user model extended with everything smoothers call, and a reference for each smoothing method.

Every method checks that data, history, ancestors and future handed over belong to the step it is asked about (C18)."""
import numpy as np
from harness.absmodel import build, num, NINF

FILTER = 'pyparticleest.filter'


class Ref(object):
    """what the model is expected to compute, from provenance only"""

    def __init__(self, h, m, T, tag, nonm):
        self.h, self.m, self.T, self.tag, self.nonm = h, m, T, tag, nonm
        self.prov = m.prov
        self.n = {}

    def d(self, i):
        return self.prov.d(i)

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1
        return self.n[k] - 1

    def ss(self, k, pid, line, fut):
        if not self.tag:
            return pid
        return self.m.at(k, self.prov.new('ss', self.d(pid), tuple(line), tuple(fut), k))

    def cp(self, k, pid, line):
        """state k re-conditioned on the previous step"""
        if not self.tag:
            return pid
        return self.m.at(k, self.prov.new('cp', self.d(pid), tuple(line), k))

    def ci(self, pid):
        if not self.tag:
            return pid
        return self.m.at(0, self.prov.new('ci', self.d(pid)))

    def meas(self, k, pid):
        if not self.tag:
            return pid
        return self.m.at(k, self.prov.new('m', self.d(pid), k))

    def L(self, k, pid, line):
        return self.m.dens('L', self.d(pid), tuple(line) if self.nonm else (), k)

    def F(self, k, pid, line, nxt):
        """single step density from step k"""
        return self.m.dens('F', self.d(pid), tuple(line) if self.nonm else (), self.d(nxt), k)

    def FF(self, k, pid, line, fut):
        """density of the whole future"""
        if self.nonm:
            return self.m.dens('FF', self.d(pid), tuple(line), tuple(fut), k)
        return self.m.dens('F', self.d(pid), (), fut[0], k)

    def ps(self, k, n, i, line, fut):
        return self.m.at(k, self.prov.new('ps', n, i, tuple(line), tuple(fut), k))

    def q(self, k, pid, line, fut):
        return self.m.dens('S', self.d(pid), tuple(line), tuple(fut), k)

    def x0(self, n, i):
        return self.m.at(0, self.prov.new('x0', n, i))

    def I(self, pid):
        return self.m.dens('I', self.d(pid))

    def upd(self, k, n, i, src, line):
        """state k propagated from src at k-1"""
        v = self.prov.new('v', n, i, tuple(line) if self.nonm else line[:1], k - 1)
        return self.m.at(k, self.prov.new('x', self.d(src), self.d(v), k - 1))


def smodel(h, T, tag=False, nonmarkov=False, zero=(), scale={}, shift=None):
    def ext(cls, prov):
        class SM(cls):
            step = {}
            data = None
            T_ = T
            log = []

            def at(self, k, i):
                self.step[i] = k
                return i

            # ---------------------------------------------------- argument checks
            def rows_at(self, part, k, what):
                ids = prov.rows(part, what)
                h.same([self.step.get(i) for i in ids], [k] * len(ids), '%s belong to the step in question' % what)
                return ids

            def at_data(self, k, ut, yt, tt, what, upto=False):
                u, y, t = self.data
                if ut is not None:
                    h.same(np.ndim(ut) > 0 and len(ut) >= min(k, T - 1), True, '%s: the inputs of earlier steps are there' % what)
                    for j in range(min(k, T - 1)):
                        h.eq(ut[j], u[j], '%s: earlier inputs found at their index' % what)
                if ut is not None and k < T - 1:
                    h.same(len(ut) > k, True, '%s: the input of the step is there' % what)
                    h.eq(ut[k], u[k], '%s: input found at its index' % what)
                if yt is not None:
                    h.same(len(yt) > k, True, '%s: the measurement of the step is there' % what)
                    if y[k] is None:
                        h.same(yt[k] is None, True, '%s: measurement found at its index' % what)
                    else:
                        h.eq(yt[k], y[k], '%s: measurement found at its index' % what)
                h.same(len(tt) > k, True, '%s: the time of the step is there' % what)
                h.eq(tt[k], t[k], '%s: time found at its index' % what)

            def lines(self, k, traj, anc, n, what):
                """history digests, newest first, of each of n particles of step k"""
                if k == 0:
                    h.same(traj is None or len(traj) == 0, True, '%s: no history before the first step' % what)
                    return [()] * n
                h.same(traj is not None and len(traj) == k, True, '%s: history strictly before the step' % what)
                h.same(len(anc), n, '%s: one ancestor per particle' % what)
                out = []
                ids = [self.rows_at(s.pa.part, i, '%s: history' % what) for i, s in enumerate(traj)]
                for i in range(n):
                    a = int(anc[i])
                    ln = []
                    for s in reversed(range(k)):
                        if not 0 <= a < len(ids[s]):
                            h.fail('%s: ancestor index inside the history' % what, str(a))
                        ln.append(prov.d(ids[s][a]))
                        if s:
                            a = int(traj[s].ancestors[a])
                    out.append(tuple(ln))
                return out

            def lasts(self, k, traj, anc, n, what):
                """digest of the previous state only (methods of a Markov model may not get more)"""
                return [x[:1] for x in self.lines(k, traj, anc, n, what)]

            def futs(self, k, future, find, n, what):
                if future is None:
                    h.same(k, T - 1, '%s: only the last step has no future' % what)
                    return [()] * n
                h.same(len(future), T - 1 - k, '%s: the whole future after the step' % what)
                if find is None:
                    find = range(n)
                h.same(len(find), n, '%s: one future per particle' % what)
                ids = [self.rows_at(s.pa.part, k + 1 + i, '%s: future' % what) for i, s in enumerate(future)]
                return [tuple(prov.d(r[int(find[i])]) for r in ids) for i in range(n)]

            # ---------------------------------------------------- smoothing interface
            def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
                k = int(cur_ind)
                ids = self.rows_at(part, k, 'smoothed particles')
                self.at_data(k, ut, yt, tt, 'sample_smooth')
                ln = self.lines(k, ptraj, anc, len(ids), 'sample_smooth')
                fu = self.futs(k, future_trajs, find, len(ids), 'sample_smooth')
                if not tag:
                    return part.copy()
                return self.arr([self.at(k, prov.new('ss', prov.d(p), a, b, k)) for p, a, b in zip(ids, ln, fu)])

            def cond_predict_single_step(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
                k = int(cur_ind)
                self.at_data(k, ut, None, tt, 'cond_predict_single_step')
                ids = self.rows_at(part, k, 'conditioning particles')
                fp = self.rows_at(future_parts, k + 1, 'particles to condition on')
                ln = self.lines(k, past_trajs, pind, len(ids), 'cond_predict_single_step')
                h.same([int(i) for i in find], list(range(len(ids))), 'every particle is conditioned on its own next state')
                if not tag:
                    return future_parts.copy()
                return self.arr([self.at(k + 1, prov.new('cp', prov.d(f), (prov.d(p),) + a, k + 1)) for p, f, a in zip(ids, fp, ln)])

            def cond_sampled_initial(self, part, t):
                ids = self.rows_at(part, 0, 'initial particles')
                h.eq(t, self.data[2][0], 'cond_sampled_initial: time of the first step')
                if not tag:
                    return part.copy()
                return self.arr([self.at(0, prov.new('ci', prov.d(p))) for p in ids])

            def create_initial_estimate(self, N):
                n = prov.count('init')
                return self.arr([self.at(0, prov.new('x0', n, i)) for i in range(N)])

            def eval_logp_x0(self, particles, t):
                ids = self.rows_at(particles, 0, 'initial particles')
                h.eq(t, self.data[2][0], 'eval_logp_x0: time of the first step')
                return self.logs('I', [(prov.d(p),) for p in ids])

            def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
                k = int(cur_ind)
                self.at_data(k, ut, yt, tt, 'propose_smooth')
                n = len(anc) if anc is not None else len(find)
                ln = self.lines(k, ptraj, anc, n, 'propose_smooth')
                fu = self.futs(k, future_trajs, find, n, 'propose_smooth')
                c = prov.count('ps')
                return self.arr([self.at(k, prov.new('ps', c, i, ln[i], fu[i], k)) for i in range(n)])

            def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
                k = int(cur_ind)
                self.at_data(k, ut, yt, tt, 'logp_proposal')
                ids = self.rows_at(prop_part, k, 'proposed particles')
                ln = self.lines(k, ptraj, anc, len(ids), 'logp_proposal')
                fu = self.futs(k, future_trajs, find, len(ids), 'logp_proposal')
                return self.logs('S', [(prov.d(p), a, b, k) for p, a, b in zip(ids, ln, fu)])

            # ---------------------------------------------------- densities and propagation
            def meas_impl(self, particles, ln, k):
                ids = self.rows_at(particles, k, 'measured particles')
                out = self.logs('L', [(prov.d(p), a, k) for p, a in zip(ids, ln)])
                if tag:
                    particles[:] = self.arr([self.at(k, prov.new('m', prov.d(p), k)) for p in ids])
                return out

            def logp_xnext_max(self, particles, u, t):
                k = self.k_of(u, t)
                ids = self.rows_at(particles, k, 'particles')
                return self.logs('M', [(k,) + tuple(prov.d(p) for p in ids)])[0]

            def k_of(self, u, t):
                """the step whose time this is; times are distinct"""
                k = self.k_time(t)
                h.eq(u, self.data[0][k], 'input and time of the same step')
                return k

            def k_time(self, t):
                for k in range(T):
                    if t is self.data[2][k] or num(t) == num(self.data[2][k]):
                        return k
                h.fail('time stamps are handed over unchanged', str(t))

            if nonmarkov:
                def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
                    k = len(tvec) - 1
                    h.same(len(yvec), len(tvec), 'measurements and times up to the step')
                    self.at_data(k, None, yvec, tvec, 'measure_full')
                    return self.meas_impl(particles, self.lines(k, traj, ancestors, len(particles), 'measure_full'), k)

                def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
                    k = int(cur_ind)
                    self.at_data(k, ut, yt, tt, 'logp_xnext_full')
                    ids = self.rows_at(part, k, 'particles')
                    ln = self.lines(k, past_trajs, pind, len(ids), 'logp_xnext_full')
                    fu = self.futs(k, future_trajs, find, len(ids), 'logp_xnext_full')
                    return self.scaled(k, ids, self.logs('FF', [(prov.d(p), a, b, k) for p, a, b in zip(ids, ln, fu)], self.zero_pos(k, ids, 'FF')))

                def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
                    k = int(cur_ind)
                    self.at_data(k, ut, None, tt, 'logp_xnext_singlestep')
                    ids = self.rows_at(part, k, 'particles')
                    fp = self.rows_at(future_parts[find], k + 1, 'next particles')
                    ln = self.lines(k, past_trajs, pind, len(ids), 'logp_xnext_singlestep')
                    return self.logs('F', [(prov.d(p), a, prov.d(f), k) for p, a, f in zip(ids, ln, fp)])

                def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
                    k = len(tt) - 1
                    h.same(len(ut), k + 1, 'inputs and times up to the old step')
                    self.at_data(k, ut, None, tt, 'sample_process_noise_full')
                    ln = self.lines(k + 1, ptraj, ancestors, len(ancestors), 'sample_process_noise_full')
                    n = prov.count('noise')
                    return self.arr([prov.new('v', n, i, ln[i], k) for i in range(len(ancestors))])

                def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
                    k = len(tvec) - 1
                    h.same((len(uvec), len(yvec)), (k + 1, k + 1), 'data up to the old step')
                    self.at_data(k, uvec, yvec, tvec, 'update_full')
                    ids = self.rows_at(particles, k, 'particles')
                    vs = prov.rows(noise, 'noise')
                    self.lines(k + 1, traj, ancestors, len(ids), 'update_full')
                    particles[:] = self.arr([self.at(k + 1, prov.new('x', prov.d(p), prov.d(v), k)) for p, v in zip(ids, vs)])
                    return particles
            else:
                def measure(self, particles, y, t):
                    k = self.k_time(t)
                    if self.data[1][k] is None:
                        h.fail('no measurement is evaluated where there is none', '')
                    h.eq(y, self.data[1][k], 'measurement and time of the same step')
                    return self.meas_impl(particles, [()] * len(particles), k)

                def logp_xnext(self, particles, next_part, u, t):
                    k = self.k_of(u, t)
                    ids = self.rows_at(particles, k, 'particles')
                    nx = self.rows_at(next_part, k + 1, 'next particles')
                    h.same(len(ids), len(nx), 'one next particle per particle')
                    return self.scaled(k, ids, self.logs('F', [(prov.d(p), (), prov.d(n), k) for p, n in zip(ids, nx)], self.zero_pos(k, ids, 'F')))

                def sample_process_noise(self, particles, u, t):
                    k = self.k_of(u, t)
                    ids = self.rows_at(particles, k, 'particles')
                    n = prov.count('noise')
                    return self.arr([prov.new('v', n, i, (prov.d(p),), k) for i, p in enumerate(ids)])

                def update(self, particles, u, t, noise):
                    k = self.k_of(u, t)
                    ids = self.rows_at(particles, k, 'particles')
                    vs = prov.rows(noise, 'noise')
                    particles[:] = self.arr([self.at(k + 1, prov.new('x', prov.d(p), prov.d(v), k)) for p, v in zip(ids, vs)])
                    return particles

            def scaled(self, k, ids, out):
                """filter particles whose weight has another order of magnitude have transition densities that make up for it"""
                if scale:
                    for pos, x in enumerate(ids):
                        key = prov.key(x)
                        if key[0] in ('h', 'h0'):
                            out[pos] = out[pos] - scale.get((k, key[-1]), 0)
                return out

            def zero_pos(self, k, ids, kind):
                """positions of the filter particles whose transitions are impossible"""
                out = []
                for pos, x in enumerate(ids):
                    key = prov.key(x)
                    if key[0] in ('h', 'h0') and (k, key[-1]) in zero:
                        out.append((kind, pos))
                return tuple(out)
        SM.step = {}
        SM.log = []
        return SM
    m = build(h, nonmarkov=nonmarkov, extra=ext, shift=shift)
    return m


class Setup(object):
    pass


def setup(h):
    """a filter history with arbitrary weights, ancestry and data"""
    P = h.p
    s = Setup()
    s.h = h
    s.f = h.mod(FILTER)
    s.S = h.mod('pyparticleest.smoother')
    s.N, s.M, s.T = P['N'], P['M'], P['T']
    N, T = s.N, s.T
    s.tag, s.nonm = P.get('tag', False), P.get('nonmarkov', False)
    m = s.m = smodel(h, T, s.tag, s.nonm, P.get('zero', ()), P.get('scale', {}), P.get('lshift'))
    prov = s.prov = m.prov
    s.u = [h.real('u%d' % k) if P.get('symdata') else 10.0 + k for k in range(T)]
    s.y = [h.real('y%d' % k) if P.get('symdata') else 20.0 + k for k in range(T)]
    for k in P.get('missing', ()):
        s.y[k] = None
    s.t = [float(k) for k in range(T)]
    m.data = (s.u, s.y, s.t)
    tables = P.get('anc')
    s.anc, s.ids, s.p, traj = [], [], [], []
    ids = [prov.new('h0', i) for i in range(N)]
    for k in range(T):
        if k == 0:
            a = list(range(N))
        elif tables == 'all':
            a = [h.choose(N, 'anc') for _ in range(N)]
        elif tables:
            a = list(tables[(k - 1) % len(tables)])
        else:
            a = [[N - 1] + list(range(N - 1)), [0] * (N - 1) + [N - 1]][k % 2]
        if k:
            ids = [prov.new('h', prov.d(ids[x]), k, i) for i, x in enumerate(a)]
        for i in ids:
            m.at(k, i)
        w = h.zeros((N,))
        p = []
        sh = P.get('shift', {}).get(k, 0)
        for i in range(N):
            if (k, i) in P.get('neginf', ()):
                w[i] = NINF
                p.append(None)
            else:
                v = h.pos('w%d_%d' % (k, i)) if P.get('many') is None else h.const(1 if P.get('flat') else (1 + (5 * i + k) % 7) / 4.0)
                sc = P.get('scale', {}).get((k, i), 0)
                if P.get('scale'):
                    h.assume(h.lt(v, 1000))
                    h.assume(h.lt(h.f(1, 1000), v))
                w[i] = h.log(v) + sh + sc
                p.append(v)
        s.anc.append(a)
        s.ids.append(list(ids))
        s.p.append(p)
        traj.append(s.f.TrajectoryStep(s.f.ParticleApproximation(m.arr(ids), w), ancestors=np.array(a, dtype=int)))
    pt = s.f.ParticleTrajectory(m, N, resample=0.5, filter='PF')
    pt.traj = traj
    pt.ind = T - 1
    U = T if P.get('prealloc') else T - 1
    pt.T = T
    pt.uvec = np.empty(U, dtype=object) if not h.sym else h.np.empty(U, dtype=object)
    pt.yvec = np.empty(T, dtype=object) if not h.sym else h.np.empty(T, dtype=object)
    for k in range(T):
        if k < T - 1:
            pt.uvec[k] = s.u[k]
        elif U == T:
            pt.uvec[k] = None
        pt.yvec[k] = s.y[k]
    pt.tvec = h.arr(s.t)
    s.pt = pt
    s.R = Ref(h, m, T, s.tag, s.nonm)
    return s


def line(s, k, i):
    """history digests of particle i of filter step k, newest first"""
    out = []
    for t in reversed(range(k)):
        i = s.anc[t + 1][i]
        out.append(s.prov.d(s.ids[t][i]))
    return tuple(out)


def aline(s, k, a):
    """history digests of a particle of step k whose ancestor index into step k-1 is a"""
    return () if k == 0 else (s.prov.d(s.ids[k - 1][a]),) + line(s, k - 1, a)


def mul(*xs):
    if any(x is None for x in xs):
        return None
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


def fut_of(s, st, k, j):
    """digests of the smoothed future after step k of trajectory j"""
    return tuple(s.prov.d(st[t][j]) for t in range(k + 1, s.T))


def smoothed_rows(s, traj):
    s.h.same(len(traj), s.T, 'one smoothed step per time step')
    out = []
    for k in range(s.T):
        ids = s.m.rows_at(traj[k].pa.part, k, 'smoothed particles')
        s.h.same(len(ids), s.M, 'the requested number of trajectories')
        out.append(ids)
    return out


# ------------------------------------------------------------------ reference methods
def ref_end(s, tape):
    return tape.sample(s.p[-1], s.M)


def ref_ancestor(s, tape):
    ind = ref_end(s, tape)
    st = [None] * s.T
    for k in reversed(range(s.T)):
        st[k] = [s.R.ss(k, s.ids[k][i], line(s, k, i), fut_of(s, st, k, j)) for j, i in enumerate(ind)]
        if k:
            ind = [s.anc[k][i] for i in ind]
    return st


def zero(s, k, i):
    return (k, i) in s.h.p.get('zero', ())


def ref_full_step(s, tape, k, st, j):
    fu = fut_of(s, st, k, j)
    w = [None if zero(s, k, i) else mul(s.p[k][i], s.R.FF(k, s.ids[k][i], line(s, k, i), fu)) for i in range(s.N)]
    return tape.sample(w, 1)[0]


def ref_bsi(s, tape, step):
    """step(k, st, ind): chosen indices"""
    ind = ref_end(s, tape)
    st = [None] * s.T
    T = s.T
    st[T - 1] = [s.R.ss(T - 1, s.ids[T - 1][i], line(s, T - 1, i), ()) for i in ind]
    for k in reversed(range(T - 1)):
        ind = step(k, st, ind)
        st[k] = [s.R.ss(k, s.ids[k][i], line(s, k, i), fut_of(s, st, k, j)) for j, i in enumerate(ind)]
    return st


def ref_full(s, tape):
    return ref_bsi(s, tape, lambda k, st, ind: [ref_full_step(s, tape, k, st, j) for j in range(s.M)])


def ref_rs(s, tape, R, stop=None, only=None):
    """R tries then exact; stop(history of (tried, accepted)) -> bool for the adaptive rule"""
    h = s.h

    def step(k, st, _ind):
        todo = list(range(s.M))
        res = [None] * s.M
        Mx = s.m.dens('M', k, *[s.prov.d(i) for i in s.ids[k]])
        hist = []
        tries = 0
        while todo and (stop is not None or tries < R):
            tries += 1
            cand = tape.sample(s.p[k], len(todo))
            cand = [cand[q] for q in tape.perm(len(todo))]
            us = [tape.u() for _ in todo]
            left = []
            for j, c, u in zip(todo, cand, us):
                if zero(s, k, c):
                    ok = False
                else:
                    ok = h.less(u * Mx, s.R.FF(k, s.ids[k][c], line(s, k, c), fut_of(s, st, k, j)))
                if ok:
                    res[j] = c
                else:
                    left.append(j)
            hist.append((len(todo), len(todo) - len(left)))
            todo = left
            if stop is not None and todo and stop(hist):
                break
        for j in todo:
            res[j] = ref_full_step(s, tape, k, st, j)
        return res
    if only is not None:
        return step(0, only, None)
    return ref_bsi(s, tape, step)


def ref_mcmc(s, tape, R, only=None, start=None):
    h = s.h

    def step(k, st, ind):
        cur = list(start) if only is not None else [s.anc[k + 1][i] for i in ind]
        dens = lambda c, j: s.R.FF(k, s.ids[k][c], line(s, k, c), fut_of(s, st, k, j))
        for _ in range(R):
            prop = tape.sample(s.p[k], s.M)
            prop = [prop[q] for q in tape.perm(s.M)]
            us = [tape.u() for _ in range(s.M)]
            for j in range(s.M):
                if h.less(us[j] * dens(cur[j], j), dens(prop[j], j)):
                    cur[j] = prop[j]
        return cur
    if only is not None:
        return step(0, only, None)
    return ref_bsi(s, tape, step)


def ref_mc_step(s, tape, k, cur, src_c, src_p, st, reduced):
    """one Metropolis-Hastings move of all trajectories at step k.

    cur: current states; src_c/src_p: per trajectory (previous state id, history line) for the current and proposed ancestor"""
    R, h = s.R, s.h
    M = s.M
    lc = [(s.prov.d(a),) + b for a, b in src_c] if k else [()] * M
    lp = [(s.prov.d(a),) + b for a, b in src_p] if k else [()] * M
    cur = [R.cp(k, c, lc[j]) if k else R.ci(c) for j, c in enumerate(cur)]
    fu = [fut_of(s, st, k, j) for j in range(M)]
    if reduced:
        if k:
            n = R.count('v')
            prop = [R.upd(k, n, i, src_p[i][0], lp[i]) for i in range(M)]
        else:
            n = R.count('x0')
            prop = [R.x0(n, i) for i in range(M)]
    else:
        n = R.count('ps')
        prop = [R.ps(k, n, i, lp[i], fu[i]) for i in range(M)]
    us = [tape.u() for _ in range(M)]
    acc = []
    out = []
    meas = s.y[k] is not None
    for j in range(M):
        a, b = [h.const(1)], [h.const(1)]      # accept iff u * b < a
        for pid, ln, src, qln, top, bot in ((prop[j], lp[j], src_p[j] if k else None, lp[j], a, b), (cur[j], lc[j], src_c[j] if k else None, lc[j], b, a)):
            if not reduced:
                bot.append(R.q(k, pid, qln, fu[j]))
                top.append(R.F(k - 1, src[0], src[1], pid) if k else R.I(pid))
            if meas:
                top.append(R.L(k, pid, ln))
            if k < s.T - 1:
                top.append(R.FF(k, R.meas(k, pid) if meas else pid, ln, fu[j]))
        ok = h.less(us[j] * mul(*b), mul(*a))
        acc.append(ok)
        x = prop[j] if ok else cur[j]
        out.append(R.meas(k, x) if meas else x)
    return out, acc


def ref_mhips_pass(s, tape, old, reduced):
    T, M = s.T, s.M
    st = [None] * T
    for k in reversed(range(T)):
        src = [(old[k - 1][j], tuple(s.prov.d(old[t][j]) for t in reversed(range(k - 1)))) for j in range(M)] if k else None
        out, _ = ref_mc_step(s, tape, k, old[k], src, src, st, reduced)
        st[k] = [s.R.ss(k, out[j], (s.prov.d(src[j][0]),) + src[j][1] if k else (), fut_of(s, st, k, j)) for j in range(M)]
    return st


def ref_mhips(s, tape, R, reduced, pre=None):
    st = ref_ancestor(s, tape)
    for _ in range(R):
        if pre is not None:
            st = pre(st)
        st = ref_mhips_pass(s, tape, st, reduced)
    return st


def ref_mhbp(s, tape, R, reduced=False):
    cind = ref_end(s, tape)
    T, M = s.T, s.M
    st = [None] * T
    for k in reversed(range(T)):
        cur = [s.ids[k][i] for i in cind]
        anc = [s.anc[k][i] for i in cind]
        for _ in range(R):
            panc = tape.sample(s.p[k - 1], M) if k else None
            if k:       # candidates are drawn in order of their indices: dealt out at random, any trajectory can get any of them
                panc = [panc[q] for q in tape.perm(M)]
            sc = [(s.ids[k - 1][a], line(s, k - 1, a)) for a in anc] if k else None
            sp = [(s.ids[k - 1][a], line(s, k - 1, a)) for a in panc] if k else None
            cur, acc = ref_mc_step(s, tape, k, cur, sc, sp, st, reduced)
            if k:
                anc = [p if ok else a for p, ok, a in zip(panc, acc, anc)]
        st[k] = [s.R.ss(k, cur[j], aline(s, k, anc[j]), fut_of(s, st, k, j)) for j in range(M)]
        cind = anc
    return st


def compare(s, traj, st, what):
    got = smoothed_rows(s, traj)
    for k in range(s.T):
        for j in range(s.M):
            if got[k][j] != st[k][j]:
                s.h.fail(what, 'step %d trajectory %d is %s, expected %s' % (k, j, s.prov.key(got[k][j]), s.prov.key(st[k][j])))
    s.h.nobl += 1


def snap_pt(s):
    return [(x.pa.part.copy(), x.pa.w.copy(), x.ancestors.copy()) for x in s.pt.traj]


def check_pt(s, snap):
    h = s.h
    for k, (x, (a, b, c)) in enumerate(zip(s.pt.traj, snap)):
        h.eq(x.pa.part, a, 'smoothing leaves the filter particles unchanged')
        h.eq(x.pa.w, b, 'smoothing leaves the filter weights unchanged')
        h.same([int(i) for i in x.ancestors], [int(i) for i in c], 'smoothing leaves the filter ancestors unchanged')
    for k in range(s.T):
        if k < s.T - 1:
            h.eq(s.pt.uvec[k], s.u[k], 'smoothing leaves the inputs unchanged')
        if s.y[k] is None:
            h.same(s.pt.yvec[k] is None, True, 'smoothing leaves the measurements unchanged')
        else:
            h.eq(s.pt.yvec[k], s.y[k], 'smoothing leaves the measurements unchanged')
        h.eq(s.pt.tvec[k], s.t[k], 'smoothing leaves the times unchanged')


def run(s, method, opts=None):
    return s.pt.perform_smoothing(s.M, method=method, smoother_options=opts)
