"""A user model with opaque particles.

Every particle is a row [id, id+0.25] whose id names how the particle came to be (a hash-consed provenance key), and every density is an
arbitrary positive symbol named by its arguments, so what a filter or smoother does with the model can be read off its results."""
import hashlib
import numpy as np
from engine.harness import Fail

NINF = -float('inf')


class Prov(object):
    def __init__(self, h):
        self.h = h
        self.keys = {}
        self.ids = {}
        self.dig = {}
        self.n = {}

    def count(self, what):
        self.n[what] = self.n.get(what, 0) + 1
        return self.n[what] - 1

    def new(self, kind, *args):
        """id of the particle with this provenance; particles among args are given as P(id)"""
        key = (kind,) + args
        d = hashlib.md5(repr(key).encode()).hexdigest()[:10]
        i = self.ids.get(d)
        if i is None:
            i = 1000 + len(self.ids)
            self.ids[d] = i
            self.keys[i] = key
            self.dig[i] = d
        return i

    def d(self, i):
        return self.dig[i]

    def id(self, row, what='particle'):
        """id of a particle row"""
        a, b = num(row[0]), num(row[1])
        if a is None or b is None or a != a or abs(b - a - 0.25) > 1e-9 or int(a) not in self.keys:
            self.h.fail('%s is intact' % what, 'row %s %s' % (row[0], row[1]))
        return int(a)

    def rows(self, part, what='particle'):
        part = np.asarray(part)
        if part.ndim != 2 or part.shape[1] != 2:
            self.h.fail('%s array has its shape' % what, 'shape %s' % (part.shape,))
        return [self.id(part[i], what) for i in range(len(part))]

    def key(self, i):
        return self.keys[i]

    def by_digest(self, d):
        return self.ids[d]


def num(x):
    """plain number of a constant, None for None"""
    if x is None:
        return None
    if isinstance(x, np.ndarray):
        if x.dtype == object and x.size == 1:
            x = x.ravel()[0]
        elif x.size != 1:
            return tuple(round(float(v), 6) for v in x.ravel())
        else:
            x = x.ravel()[0]
        if x is None:
            return None
    r = getattr(x, 'r', None)
    if r is not None and not r.isconst():
        return float('nan')
    return round(float(x), 6)


def build(h, nonmarkov=False, shift=None, zero=(), extra=None, pattern=True):
    """model object deriving from the interface classes of /repo"""
    I = h.mod('pyparticleest.interfaces')
    prov = Prov(h)

    class Markov(I.ParticleFiltering, I.FFBSiRS, I.SampleProposer, I.AuxiliaryParticleFiltering):
        prov_ = prov

        def arr(self, ids):
            return h.arr([[i, i + 0.25] for i in ids]) if len(ids) else h.zeros((0, 2))

        # -------- densities: an arbitrary positive number named by its arguments
        def dens(self, kind, *key):
            d = hashlib.md5(repr(key).encode()).hexdigest()[:8]
            many = h.p.get('many')
            if many and int(d, 16) % many:      # a large set of particles, few of which have arbitrary densities
                return h.const(1 if h.p.get('flat') else (1 + int(d, 16) // many % 7) / 4.0)
            name = kind + d
            names[name] = (kind,) + key
            return h.pos(name)

        def logs(self, kind, keys, pos_zero=()):
            out = h.zeros((len(keys),))
            sh = (shift or {}).get(kind, 0)
            for i, k in enumerate(keys):
                out[i] = NINF if (kind, i) in pos_zero else h.log(self.dens(kind, *k)) + sh
                if kind in ('F', 'A'):
                    out[i] = out[i] - getattr(self, 'scale', {}).get(k[0], 0)
            return out

        def create_initial_estimate(self, N):
            n = prov.count('init')
            return self.arr([prov.new('x0', n, i) for i in range(N)])

        def sample_process_noise(self, particles, u, t):
            n = prov.count('noise')
            return self.arr([prov.new('v', prov.d(p), num(u), num(t), n, i) for i, p in enumerate(prov.rows(particles))])

        def update(self, particles, u, t, noise):
            ps = prov.rows(particles)
            vs = prov.rows(noise, 'noise')
            h.same(len(ps), len(vs), 'one noise sample per particle')
            particles[:] = self.arr([prov.new('x', prov.d(p), prov.d(v), num(u), num(t)) for p, v in zip(ps, vs)])
            return particles

        def measure(self, particles, y, t):
            ps = prov.rows(particles)
            self.ncall = getattr(self, 'ncall', 0) + 1
            if num(y) is None:
                return h.zeros((len(ps),))
            return self.logs('L', [(prov.d(p), num(y), num(t)) for p in ps], zero if not getattr(self, 'zdone', False) else ())

        def logp_xnext(self, particles, next_part, u, t):
            ps = prov.rows(particles)
            ns = prov.rows(next_part, 'next particle')
            h.same(len(ps), len(ns), 'one next particle per particle')
            return self.logs('F', [(prov.d(p), prov.d(n), num(u), num(t)) for p, n in zip(ps, ns)], zero)

        def logp_xnext_max(self, particles, u, t):
            ps = prov.rows(particles)
            return self.logs('M', [tuple(prov.d(p) for p in ps) + (num(u), num(t))])[0]

        def eval_1st_stage_weights(self, particles, u, y, t):
            ps = prov.rows(particles)
            return self.logs('A', [(prov.d(p), num(u), num(y), num(t)) for p in ps], zero)

        def eval_logp_x0(self, particles, t):
            ps = prov.rows(particles)
            return self.logs('I', [(prov.d(p), num(t)) for p in ps])

        # -------- SIR
        def qsample(self, particles, u, y, t):
            n = prov.count('q')
            return self.arr([prov.new('q', prov.d(p), num(u), num(y), num(t), n, i) for i, p in enumerate(prov.rows(particles))])

        def logp_q(self, particles, next_part, u, y, t):
            ps = prov.rows(particles)
            ns = prov.rows(next_part, 'next particle')
            h.same(len(ps), len(ns), 'one proposed particle per particle')
            return self.logs('Q', [(prov.d(p), prov.d(n), num(u), num(y), num(t)) for p, n in zip(ps, ns)])

        def propose_from_y(self, N, y, t):
            n = prov.count('py')
            return self.arr([prov.new('py', num(y), num(t), n, i) for i in range(N)])

    names = {}
    cls = Markov
    if nonmarkov:
        class NonMarkov(Markov):
            """checks that the history handed over belongs to the particles"""

            def line(self, traj, anc, i, what):
                """ids along the recorded line, newest first"""
                out = []
                a = int(anc[i])
                for k in reversed(range(len(traj))):
                    if not 0 <= a < len(traj[k].pa.part):
                        h.fail('%s: ancestor index inside the history' % what, 'index %d' % a)
                    out.append(prov.id(traj[k].pa.part[a]))
                    a = int(traj[k].ancestors[a])
                return tuple(prov.d(x) for x in out)

            def vectors(self, what, nu, u, ny, y, nt, t):
                """data handed over: input i is 10+i, measurement i is 20+i, time i is i, for all steps that are known"""
                if not pattern:
                    return
                for nm, n, v, base in (('inputs', nu, u, 10.0), ('measurements', ny, y, 20.0), ('times', nt, t, 0.0)):
                    if n is None:
                        continue
                    h.same(len(v) >= n, True, '%s: %s are handed over up to the step' % (what, nm))
                    for i in range(n):
                        if not (nm == 'measurements' and num(v[i]) is None):
                            h.same(num(v[i]), base + i, '%s: %s are handed over' % (what, nm))

            def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
                n = prov.count('noise')
                self.vectors('noise', len(ptraj), ut, None, None, len(ptraj), tt)
                h.same(len(ut), len(ptraj), 'inputs up to the current step')
                h.same(len(tt), len(ptraj), 'times up to the current step')
                return self.arr([prov.new('v', self.line(ptraj, ancestors, i, 'noise'), num(ut[-1]), num(tt[-1]), n, i)
                                 for i in range(len(ancestors))])

            def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
                ps = prov.rows(particles)
                vs = prov.rows(noise, 'noise')
                h.same(len(uvec), len(traj), 'inputs up to the current step')
                h.same(len(yvec), len(traj), 'measurements up to the current step')
                h.same(len(tvec), len(traj), 'times up to the current step')
                self.vectors('update', len(traj), uvec, len(traj), yvec, len(traj), tvec)
                ids = []
                for i, (p, v) in enumerate(zip(ps, vs)):
                    ln = self.line(traj, ancestors, i, 'update')
                    h.same(ln[0], prov.d(p), 'the particle to update is the one its ancestor names')
                    ids.append(prov.new('x', prov.d(p), prov.d(v), num(uvec[-1]), num(tvec[-1])))
                particles[:] = self.arr(ids)
                return particles

            def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
                ps = prov.rows(particles)
                h.same(len(yvec), len(tvec), 'measurements and times are aligned')
                self.vectors('measure', len(yvec) - 1, uvec, len(yvec), yvec, len(yvec), tvec)
                if num(yvec[-1]) is None:
                    return h.zeros((len(ps),))
                if len(yvec) > 1:
                    h.same(len(traj), len(yvec) - 1, 'history up to the step before')
                    keys = [(prov.d(p), self.line(traj, ancestors, i, 'measure'), num(yvec[-1]), num(tvec[-1])) for i, p in enumerate(ps)]
                else:
                    keys = [(prov.d(p), (), num(yvec[-1]), num(tvec[-1])) for p in ps]
                return self.logs('L', keys, zero)

            def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
                ps = prov.rows(part)
                h.same(len(past_trajs), cur_ind, 'history strictly before the step')
                self.vectors('transition', cur_ind + 1, ut, cur_ind + 2, yt, cur_ind + 2, tt)
                fp = prov.rows(future_parts[find], 'next particle')
                h.same(len(fp), len(ps), 'one next particle per particle')
                keys = [(prov.d(p), self.line(past_trajs, pind, i, 'transition'), prov.d(n), num(ut[cur_ind]), num(tt[cur_ind]))
                        for i, (p, n) in enumerate(zip(ps, fp))]
                return self.logs('F', keys, zero)
        cls = NonMarkov
    if extra is not None:
        cls = extra(cls, prov)
    m = cls()
    m.names = names
    m.prov = prov
    return m


def prior_history(h, m, f, N, k, ptraj_anc=None, w=None):
    """a filter history of steps 0..k (particles, arbitrary ancestry, weights of the last step as given)"""
    prov = m.prov
    traj = []
    ids = [prov.new('x0', 99, i) for i in range(N)]
    anc = np.arange(N)
    for t in range(k + 1):
        if t:
            anc = np.array(ptraj_anc[t - 1], dtype=int)
            ids = [prov.new('h', prov.d(ids[a]), t, i) for i, a in enumerate(anc)]
        pa = f.ParticleApproximation(m.arr(ids), w if t == k else None)
        traj.append(f.TrajectoryStep(pa, ancestors=anc))
    return traj, ids
