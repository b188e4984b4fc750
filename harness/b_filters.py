"""C04-C09: one step of each filter from an arbitrary state."""
import numpy as np
from engine.cases import case, add, info, label
from harness.absmodel import build, prior_history, num, NINF
from harness.a_sampling import log_weights, total

FILTER = 'pyparticleest.filter'


def data(h, k, T, ymiss=False):
    """inputs, measurements, times of a preallocated data set; entries after the new step are different garbage"""
    u = np.empty(T, dtype=object)
    y = np.empty(T, dtype=object)
    t = h.arr([float(i) for i in range(T)])
    for i in range(T):
        u[i] = 10.0 + i if i <= k else 910.0 + i
        y[i] = 20.0 + i if i <= k + 1 else 920.0 + i
    if ymiss:
        y[k + 1] = None
    return u, y, t


def check_ancestors(h, anc, p, N, n, neg=()):
    tot = total(h, p)
    h.same(len(anc), n, 'one ancestor per particle')
    h.same(all(0 <= a < N for a in anc), True, 'ancestors are valid')
    for i in range(N):
        c = anc.count(i)
        if i in neg:
            h.same(c, 0, 'a particle of zero weight has no children')
        h.true(h.lt(n * p[i], (c + 1) * tot), 'drawn in proportion to the weights (floor)')
        h.true(h.lt((c - 1) * tot, n * p[i]), 'drawn in proportion to the weights (ceil)')


def check_weights(h, w, lp, what):
    """log-weights equal lp up to a common constant; largest is 0. lp[i] None stands for zero weight"""
    ref = [i for i in range(len(lp)) if lp[i] is not None]
    for i in range(len(lp)):
        if lp[i] is None:
            h.same(num(w[i]) == NINF, True, what + ': zero weight')
        else:
            j = ref[0]
            h.eq(w[i] - w[j], lp[i] - lp[j], what)
    if ref:
        h.eq(h.maxof([w[i] for i in ref]), 0, what + ': the largest log-weight is 0')


def state(h, k=1):
    """model, filter module, history of steps 0..k with arbitrary weights"""
    f = h.mod(FILTER)
    N = h.p['N']
    m = build(h, nonmarkov=h.p.get('nonmarkov', False), shift=h.p.get('lshift'), zero=h.p.get('zero', ()))
    w, p = log_weights(h, N, h.p.get('neginf', ()), h.p.get('shift', 0))
    anc = [[0] * (N - 1) + [N - 1], [N - 1] + list(range(N - 1))]
    for i, c in enumerate(h.p.get('scale', ())):
        w[i] = w[i] + c
    traj, ids = prior_history(h, m, f, N, k, anc, w)
    m.scale = {m.prov.d(ids[i]): c for i, c in enumerate(h.p.get('scale', ()))}
    return f, m, traj, ids, p, w


def resample_condition(h, p, res, N):
    s1 = total(h, p)
    s2 = total(h, [x * x for x in p])
    return h.lt(s1 * s1, res * N * s2)


def snapshot(traj):
    return [(s.pa.part.copy(), s.pa.w.copy(), s.ancestors.copy()) for s in traj]


def unchanged(h, traj, snap, what='the stored history is not changed'):
    for s, (a, b, c) in zip(traj, snap):
        h.eq(s.pa.part, a, what + ' (particles)')
        h.eq(s.pa.w, b, what + ' (weights)')
        h.same(list(s.ancestors), list(c), what + ' (ancestors)')


def decide_resampled(h, resampled, p, res, N):
    cond = resample_condition(h, p, res, N)
    s1 = total(h, p)
    s2 = total(h, [x * x for x in p])
    if resampled:
        h.true(h.le(s1 * s1, res * N * s2), 'resampling only below the threshold')
        if N in (1, 2, 4):      # equal weights and the threshold 1 are exact in floating-point numbers, too
            d = total(h, [(x - p[0]) * (x - p[0]) for x in p]) + (1 - res) * (1 - res)
            h.true(h.lt(h.const(0), d), 'no resampling at the threshold')
    else:
        h.true(h.le(res * N * s2, s1 * s1), 'resampling whenever below the threshold')


def likelihood_keys(h, m, ids, anc, part, k, nonm, lines):
    prov = m.prov
    out = []
    for i, x in enumerate(part):
        if nonm:
            out.append((prov.d(x), lines[i], 20.0 + k + 1, float(k + 1)))
        else:
            out.append((prov.d(x), 20.0 + k + 1, float(k + 1)))
    return out


def c04(h):
    k = h.p.get('k', 1)
    f, m, traj, ids, p, w = state(h, k)
    N = h.p['N']
    res = h.p['res'] if h.p['res'] is not None else h.unit('res')
    prov = m.prov
    u, y, t = data(h, k, k + 4, h.p.get('ymiss', False))
    snap = snapshot(traj)
    pf = f.ParticleFilter(m) if h.p.get('noarg') else f.ParticleFilter(m, res)
    pa, resampled, anc = pf.forward(traj=traj, yvec=y, uvec=u, tvec=t, cur_ind=k)
    anc = [int(a) for a in anc]
    if h.p['res'] == 0:
        h.same(bool(resampled), False, 'no resampling at threshold 0')
    else:
        decide_resampled(h, bool(resampled), p, res, N)
    if resampled:
        check_ancestors(h, anc, p, N, N, h.p.get('neginf', ()))
    else:
        h.same(anc, list(range(N)), 'without resampling particle i descends from particle i')
    h.same(len(pa.part), N, 'number of particles')
    rows = prov.rows(pa.part)
    lp = []
    nonm = h.p.get('nonmarkov', False)
    for i, x in enumerate(rows):
        key = prov.key(x)
        h.same(key[0], 'x', 'the particle was propagated once')
        h.same(key[1], prov.d(ids[anc[i]]), 'the particle was propagated from the ancestor it reports')
        h.same(key[3:], (10.0 + k, float(k)), 'propagated with input and time of the old step')
        vk = prov.key(prov.by_digest(key[2]))
        src = m.line(traj, anc, i, '') if nonm else prov.d(ids[anc[i]])
        h.same(vk[1:4], (src, 10.0 + k, float(k)), 'noise was drawn for that ancestor, input and time')
        if not h.p.get('ymiss'):
            lk = (prov.d(x), src, 20.0 + k + 1, float(k + 1)) if nonm else (prov.d(x), 20.0 + k + 1, float(k + 1))
            L = h.log(m.dens('L', *lk))
        else:
            L = h.const(0)
        if ('L', i) in h.p.get('zero', ()) or (not resampled and i in h.p.get('neginf', ())):
            lp.append(None)
        elif resampled:
            lp.append(L)
        else:
            lp.append(L + h.log(p[i]))
    h.same(len(set(prov.key(x)[2] for x in rows)), N, 'every particle has its own noise')
    h.same(np.shape(pa.w), (N,), 'one weight per particle')
    check_weights(h, pa.w, lp, 'the new weight is the old one times the likelihood of the new measurement')
    unchanged(h, traj, snap)


info('C04', 'one step from a two-step history with arbitrary ancestry, N<=3 particles (thorough 4), all positive weights p and likelihoods L, '
     'up to one zero weight or zero likelihood, threshold 0, 2/3, 1 and arbitrary in (0,1); Markov and non-Markov model; present/missing measurement',
     ['the user model is abstract: opaque particles, likelihoods arbitrary positive numbers depending on particle, measurement and time',
      'numpy.random.rand returns an arbitrary real strictly between 0 and 1'])
for N, res, kw in [(3, None, {}), (2, 0, {}), (3, 2.0 / 3, dict(nonmarkov=True)), (3, 0, dict(nonmarkov=True, neginf=(1,))), (2, 1, dict(ymiss=True)),
                   (3, 1, dict(neginf=(0,))), (2, None, dict(zero=(('L', 0),))), (3, 0.5, dict(k=0)), (2, 0.9, dict(shift=-1000000, lshift={'L': -1000000}))]:
    add('C04', label('N%d-res%s' % (N, 'any' if res is None else '%.2g' % res), kw), c04, dict(kw, N=N, res=res))
add('C04', 'N2-threshold-not-given', c04, dict(N=2, res=0, noarg=True))
add('C04', 'large-never', c04, dict(N=294, res=0, few=(0, 292), many=60))
for n in (140, 294):
    add('C04', 'large-always-%d' % n, c04, dict(N=n, res=1.0, few=(), many=60))
add('C04', 'N4-res-any', c04, dict(N=4, res=None), tier='thorough')


# ------------------------------------------------------------------ the other filters
def logp(h, p, i, neg):
    return None if i in neg else h.log(p[i])


def plus(*xs):
    r = None
    for x in xs:
        if x is None:
            return None
        r = x if r is None else r + x
    return r


class Step(object):
    """one forward step of a filter from an arbitrary state, with what is expected of it"""


def cond_traj(h, f, m, T):
    prov = m.prov
    c = np.empty((T,), dtype=object)
    ids = []
    for t in range(T):
        i = prov.new('c', t)
        ids.append(i)
        c[t] = f.TrajectoryStep(f.ParticleApproximation(m.arr([i])), np.arange(1))
    return c, ids


def run_step(h, filt):
    s = Step()
    s.k = k = h.p.get('k', 1)
    s.f, s.m, s.traj, s.ids, s.p, s.w = state(h, k)
    s.N = N = h.p['N']
    s.res = h.p.get('res', 0)
    if s.res is None:
        s.res = h.unit('res')
    s.neg = h.p.get('neginf', ())
    s.prov = s.m.prov
    s.u, s.y, s.t = data(h, k, k + 4, h.p.get('ymiss', False))
    f = s.f
    if filt in ('CPF', 'CPFAS', 'CSIRAS', 'CPFYAS'):
        s.c, s.cids = cond_traj(h, f, s.m, k + 3)
    s.pf = {'PF': lambda: f.ParticleFilter(s.m, s.res), 'SIR': lambda: f.SIR(s.m) if h.p.get('noarg') else f.SIR(s.m, s.res), 'APF': lambda: f.AuxiliaryParticleFilter(s.m, s.res),
            'FFPropY': lambda: f.FFPropY(s.m, N) if h.p.get('noarg') else f.FFPropY(s.m, N, s.res), 'CPF': lambda: f.CPF(s.m, s.c), 'CPFAS': lambda: f.CPFAS(s.m, s.c),
            'CSIRAS': lambda: f.CSIRAS(s.m, s.c), 'CPFYAS': lambda: f.CPFYAS(s.m, N, s.c)}[filt]()
    s.snap = snapshot(s.traj)
    if getattr(h, 'before', None):
        h.before(s)
    s.pa, s.resampled, anc = s.pf.forward(traj=s.traj, yvec=s.y, uvec=s.u, tvec=s.t, cur_ind=k)
    s.anc = [int(a) for a in np.asarray(anc)]
    s.U, s.Y, s.T0, s.T1 = 10.0 + k, 20.0 + k + 1, float(k), float(k + 1)
    s.rows = s.prov.rows(s.pa.part)
    h.same(len(s.rows), N, 'number of particles')
    h.same(np.shape(s.pa.w), (N,), 'one weight per particle')
    s.nonm = h.p.get('nonmarkov', False)
    s.dpar = [s.prov.d(s.ids[a]) for a in s.anc]
    s.line = [s.m.line(s.traj, s.anc, i, '') if s.nonm else None for i in range(N)]
    return s


def L(h, s, i):
    d = s.prov.d(s.rows[i])
    return h.log(s.m.dens('L', *((d, s.line[i], s.Y, s.T1) if s.nonm else (d, s.Y, s.T1))))


def F(h, s, i):
    d = s.prov.d(s.rows[i])
    c = s.m.scale.get(s.dpar[i], 0)
    if s.nonm:
        return h.log(s.m.dens('F', s.dpar[i], s.line[i][1:], d, s.U, s.T0)) - c
    return h.log(s.m.dens('F', s.dpar[i], d, s.U, s.T0)) - c


def prior(h, s):
    if s.resampled:
        return [h.const(0)] * s.N
    sc = h.p.get('scale') or [0] * s.N
    return [plus(logp(h, s.p, i, s.neg), h.const(sc[i])) for i in range(s.N)]


def propagated(h, s, idx):
    for i in idx:
        key = s.prov.key(s.rows[i])
        h.same(key[0], 'x', 'the particle was propagated once')
        h.same(key[1], s.dpar[i], 'the particle was propagated from the ancestor it reports')
        h.same(key[3:], (s.U, s.T0), 'propagated with input and time of the old step')
        vk = s.prov.key(s.prov.by_digest(key[2]))
        h.same(vk[1:4], (s.line[i] if s.nonm else s.dpar[i], s.U, s.T0), 'noise was drawn for that ancestor, input and time')


def c06(h):
    s = run_step(h, 'APF')
    ym = h.p.get('ymiss', False)
    A = []
    for i in range(s.N):
        A.append(h.const(1) if ym else s.m.dens('A', s.prov.d(s.ids[i]), s.U, s.Y, s.T0))
    q = [(h.const(0) if i in s.neg else s.p[i]) * A[i] for i in range(s.N)]
    if h.p.get('res', 0) == 0:
        h.same(bool(s.resampled), False, 'no resampling at threshold 0')
    else:
        decide_resampled(h, bool(s.resampled), q, s.res, s.N)
    if s.resampled:
        check_ancestors(h, s.anc, q, s.N, s.N, s.neg)
    else:
        h.same(s.anc, list(range(s.N)), 'without resampling particle i descends from particle i')
    propagated(h, s, range(s.N))
    lp = []
    for i, pr in enumerate(prior(h, s)):
        if ('L', i) in h.p.get('zero', ()):
            lp.append(None)
            continue
        like = h.const(0) if ym else L(h, s, i)
        lp.append(plus(pr, like, -h.log(A[s.anc[i]]) + s.m.scale.get(s.dpar[i], 0)) if s.resampled else plus(pr, like))
    check_weights(h, s.pa.w, lp, 'likelihood over the first stage weight of the own ancestor')
    unchanged(h, s.traj, s.snap)


STUB = ['the user model is abstract: opaque particles, densities arbitrary positive numbers depending on all their arguments',
        'numpy.random.rand returns an arbitrary real strictly between 0 and 1',
        'exp of an exponent with constant part below -2000 is 0 and above 2000 is infinite, as in double precision']
B = 'one step from a two-step history with arbitrary ancestry, N<=3 particles (thorough 4), all positive weights and densities, up to one zero weight, '
info('C06', B + 'threshold 0, 2/3, 1, any in (0,1); missing measurement', STUB)
for N, kw in [(3, dict(res=None)), (2, dict(res=0)), (2, dict(res=1, ymiss=True)), (3, dict(res=0, neginf=(2,))), (2, dict(res=0, ymiss=True)),
              (3, dict(res=2.0 / 3, nonmarkov=True)), (2, dict(res=1, lshift={'A': -1000000})), (2, dict(res=1, lshift={'L': -1000000}, shift=-1000000)),
              (3, dict(res=1, neginf=(0,))), (2, dict(res=1, zero=(('L', 0),))),
              (2, dict(res=1, scale=(0, -1000000))), (3, dict(res=1, scale=(-1000000, 0, 0))), (2, dict(res=0, scale=(-1000000, 0)))]:
    add('C06', label('N%d' % N, kw), c06, dict(kw, N=N))
add('C06', 'N4-res-any', c06, dict(N=4, res=None), tier='thorough')


def c07(h):
    s = run_step(h, 'SIR')
    if h.p.get('res', 0) == 0:
        h.same(bool(s.resampled), False, 'no resampling at threshold 0')
    else:
        decide_resampled(h, bool(s.resampled), s.p, s.res, s.N)
    if s.resampled:
        check_ancestors(h, s.anc, s.p, s.N, s.N, s.neg)
    else:
        h.same(s.anc, list(range(s.N)), 'without resampling particle i descends from particle i')
    lp = []
    pr = prior(h, s)
    for i in range(s.N):
        key = s.prov.key(s.rows[i])
        h.same(key[:5], ('q', s.dpar[i], s.U, s.Y, s.T0), 'proposed from its ancestor with the new measurement')
        q = h.log(s.m.dens('Q', s.dpar[i], s.prov.d(s.rows[i]), s.U, s.Y, s.T0))
        lp.append(plus(pr[i], L(h, s, i), F(h, s, i), -q))
    check_weights(h, s.pa.w, lp, 'weights are multiplied by likelihood times prior over proposal density')
    unchanged(h, s.traj, s.snap)


info('C07', B + 'threshold 0, 2/3, 1, any in (0,1)', STUB)
for N, kw in [(3, dict(res=None)), (3, dict(res=0)), (2, dict(res=1, lshift={'L': -1000000})), (3, dict(res=1, neginf=(1,))), (3, dict(res=2.0 / 3, k=0)),
              (2, dict(res=0, lshift={'Q': 1000000}, shift=-1000000))]:
    add('C07', label('N%d' % N, kw), c07, dict(kw, N=N))
add('C07', 'N2-threshold-not-given', c07, dict(N=2, res=0, noarg=True))
add('C07', 'N4-res-any', c07, dict(N=4, res=None), tier='thorough')


def c08(h):
    s = run_step(h, 'FFPropY')
    if h.p.get('res', 0) == 0:
        h.same(bool(s.resampled), False, 'no resampling at threshold 0')
    else:
        decide_resampled(h, bool(s.resampled), s.p, s.res, s.N)
    if s.resampled:
        check_ancestors(h, s.anc, s.p, s.N, s.N, s.neg)
    else:
        h.same(s.anc, list(range(s.N)), 'without resampling particle i descends from particle i')
    lp = []
    pr = prior(h, s)
    for i in range(s.N):
        key = s.prov.key(s.rows[i])
        h.same(key[:3], ('py', s.Y, s.T1), 'proposed from the measurement and time of the new step')
        lp.append(plus(pr[i], F(h, s, i)))
    h.same(len(set(s.rows)), s.N, 'every particle is proposed separately')
    check_weights(h, s.pa.w, lp, 'weights are multiplied by the transition density from the parent')
    unchanged(h, s.traj, s.snap)


def c08_measure(h):
    f = h.mod(FILTER)
    m = build(h)
    N = h.p['N']
    pt = f.ParticleTrajectory(m, N, resample=0.5, filter='PFY', T=h.p.get('T'))
    pt.measure(20.0)
    h.same(len(pt), 1, 'one step')
    rows = m.prov.rows(pt[0].pa.part)
    h.same(len(rows), N, 'number of particles')
    for i, x in enumerate(rows):
        h.same(m.prov.key(x)[:3], ('py', 20.0, 0.0), 'proposed from the first measurement')
    h.same(len(set(rows)), N, 'every particle is proposed separately')
    check_weights(h, pt[0].pa.w + h.log(h.const(N)), [h.const(0)] * N, 'uniform weights')
    h.same([int(a) for a in pt[0].ancestors], list(range(N)), 'initial ancestors are the particles themselves')
    # and a step with the trajectory's own bookkeeping
    pt.forward(10.0, 21.0)
    s = Step()
    rows1 = m.prov.rows(pt[1].pa.part)
    anc = [int(a) for a in pt[1].ancestors]
    lp = []
    for i, x in enumerate(rows1):
        h.same(m.prov.key(x)[:3], ('py', 21.0, 1.0), 'proposed from the measurement and time of the new step')
        lp.append(h.log(m.dens('F', m.prov.d(rows[anc[i]]), m.prov.d(x), 10.0, 0.0)))
    check_weights(h, pt[1].pa.w, lp, 'weights are the transition densities')


info('C08', B + 'threshold 0, 2/3, 1, any in (0,1); Markov and non-Markov transition densities; first measurement followed by one step', STUB)
for N, kw in [(3, dict(res=None)), (3, dict(res=0, nonmarkov=True)), (3, dict(res=1, nonmarkov=True)), (2, dict(res=1, lshift={'F': -1000000}, shift=-1000000)),
              (3, dict(res=1, neginf=(1,))), (3, dict(res=2.0 / 3, k=0))]:
    add('C08', label('N%d' % N, kw), c08, dict(kw, N=N))
add('C08', 'first-measurement-N3', c08_measure, dict(N=3))
add('C08', 'first-measurement-N2-preallocated', c08_measure, dict(N=2, T=4))
add('C08', 'N4-res-any', c08, dict(N=4, res=None, nonmarkov=True), tier='thorough')


def c09(h):
    filt = h.p['filter']
    s = run_step(h, filt)
    N, prov, m = s.N, s.prov, s.m
    # log-weights far below the largest are zero weights as far as the choice of ancestors is concerned
    sc = h.p.get('scale', ())
    low = [i for i in range(N) if i in s.neg or (sc and sc[i] < max(sc))]
    check_ancestors(h, s.anc[:-1], [h.const(0) if i in low else s.p[i] for i in range(N)], N, N - 1, low)
    a = s.anc[-1]
    cd = prov.d(s.cids[s.k + 1])
    if filt == 'CPF':
        h.same(a, N - 1, 'the ancestor of the conditioned particle is the conditioned particle')
    else:
        # ancestor sampling: weight times transition density into the conditioned state
        q = []
        for i in range(N):
            if s.nonm:
                ln = m.line(s.traj[:s.k], s.traj[s.k].ancestors, i, '')
                d = m.dens('F', prov.d(s.ids[i]), ln, cd, s.U, s.T0)
            else:
                d = m.dens('F', prov.d(s.ids[i]), cd, s.U, s.T0)
            q.append((h.const(0) if i in s.neg else s.p[i]) * d)
        u = h.unit('U1')
        tot = total(h, q)
        h.same(0 <= a < N and a not in s.neg, True, 'the ancestor of the conditioned particle is valid')
        h.true(h.le(total(h, q[:a]), u * tot), 'conditioned ancestor drawn by weight times transition density (lower)')
        h.true(h.le(u * tot, total(h, q[:a + 1])), 'conditioned ancestor drawn by weight times transition density (upper)')
    h.same(s.rows[-1], s.cids[s.k + 1], 'the last particle is the conditioned state')
    lp = []
    ym = h.p.get('ymiss', False)
    if filt in ('CPF', 'CPFAS'):
        propagated(h, s, range(N - 1))
        for i in range(N):
            lp.append(h.const(0) if ym else L(h, s, i))
    elif filt == 'CSIRAS':
        for i in range(N - 1):
            h.same(prov.key(s.rows[i])[:5], ('q', s.dpar[i], s.U, s.Y, s.T0), 'proposed from its ancestor with the new measurement')
        for i in range(N):
            q = h.log(m.dens('Q', s.dpar[i], prov.d(s.rows[i]), s.U, s.Y, s.T0))
            lp.append(plus(L(h, s, i), F(h, s, i), -q))
    else:
        for i in range(N - 1):
            h.same(prov.key(s.rows[i])[:3], ('py', s.Y, s.T1), 'proposed from the measurement and time of the new step')
        for i in range(N):
            lp.append(F(h, s, i))
    if ym:
        for i in range(1, N):
            h.eq(s.pa.w[i], s.pa.w[0], 'equal weights without a measurement')
    else:
        check_weights(h, s.pa.w, lp, 'weights of the underlying filter')
    unchanged(h, s.traj, s.snap)
    for t in range(s.k + 3):
        h.eq(s.c[t].pa.part, m.arr([s.cids[t]]), 'the conditioned trajectory is not changed')


def c09_start(h):
    f = h.mod(FILTER)
    m = build(h)
    N = h.p['N']
    c, cids = cond_traj(h, f, m, 4)
    pt = f.ParticleTrajectory(m, N, filter=h.p['filter'], filter_options={'cond_traj': c}, T=h.p.get('T'))
    if h.p['meas']:
        pt.measure(20.0)
    pt.forward(10.0, 21.0)
    h.same(len(pt), 2, 'two steps')
    prov = m.prov
    rows = prov.rows(pt[0].pa.part)
    h.same(len(rows), N, 'number of particles')
    h.same(rows[-1], cids[0], 'the last initial particle is the conditioned state')
    for i in range(N - 1):
        if h.p['filter'] == 'CPFYAS':
            h.same(prov.key(rows[i])[:3], ('py', 20.0, 0.0), 'initial particles proposed from the first measurement')
        else:
            h.same(prov.key(rows[i])[0], 'x0', 'initial particles from the initial density')
    if h.p['meas'] and h.p['filter'] != 'CPFYAS':
        check_weights(h, pt[0].pa.w, [h.log(m.dens('L', prov.d(x), 20.0, 0.0)) for x in rows], 'first measurement weighs the initial particles')
    else:
        for i in range(1, N):
            h.eq(pt[0].pa.w[i], pt[0].pa.w[0], 'uniform initial weights')
    h.same(prov.rows(pt[1].pa.part)[-1], cids[1], 'the last particle is the conditioned state at the next step')
    for t in range(4):
        h.eq(c[t].pa.part, m.arr([cids[t]]), 'the conditioned trajectory is not changed')


info('C09', B + 'all four conditional filters, Markov and non-Markov; start with or without first measurement', STUB)
for filt in ('CPF', 'CPFAS', 'CSIRAS', 'CPFYAS'):
    kws = [(3, {}), (3, dict(neginf=(1,))), (2, dict(k=0)), (2, dict(shift=0, lshift={'L': -1000000, 'F': -1000000}))]
    if filt != 'CSIRAS':
        kws.append((3, dict(nonmarkov=True)))
    if filt in ('CPF', 'CPFAS'):
        kws.append((2, dict(ymiss=True)))
    if filt != 'CPF':
        # opposite orders of magnitude of old weight and density into the conditioned state
        kws += [(2, dict(scale=(0, -1000000))), (3, dict(scale=(-1000000, 0, 0)))]
    for N, kw in kws:
        add('C09', label('%s-N%d' % (filt, N), kw), c09, dict(kw, N=N, filter=filt))
    add('C09', '%s-start-measured' % filt, c09_start, dict(N=3, filter=filt, meas=True))
    if filt != 'CPFYAS':
        add('C09', '%s-start' % filt, c09_start, dict(N=2, filter=filt, meas=False, T=4))
    add('C09', '%s-N4' % filt, c09, dict(N=4, filter=filt, nonmarkov=filt != 'CSIRAS'), tier='thorough')


def c05(h):
    """largest log-weight 0, finite weights, offset bookkeeping, independence of common constants"""
    filt = h.p['filter']
    s = run_step(h, filt)
    wold = s.w
    lp = []
    pr = prior(h, s)
    sh = h.p.get('lshift', {})
    for i in range(s.N):
        if filt in ('PF', 'APF'):
            x = L(h, s, i)
            inc = x + sh.get('L', 0)
        elif filt == 'SIR':
            q = h.log(s.m.dens('Q', s.dpar[i], s.prov.d(s.rows[i]), s.U, s.Y, s.T0))
            x = L(h, s, i) + F(h, s, i) - q
            inc = x + sh.get('L', 0) + sh.get('F', 0) - sh.get('Q', 0)
        elif filt == 'FFPropY':
            x = F(h, s, i)
            inc = x + sh.get('F', 0)
        elif filt == 'CSIRAS':
            q = h.log(s.m.dens('Q', s.dpar[i], s.prov.d(s.rows[i]), s.U, s.Y, s.T0))
            x = L(h, s, i) + F(h, s, i) - q
            inc = None
        else:
            x = L(h, s, i)
            inc = x + sh.get('L', 0)
        if filt == 'APF' and s.resampled:
            x = x - h.log(s.m.dens('A', s.dpar[i], s.U, s.Y, s.T0))
        lp.append(plus(pr[i] if filt in ('PF', 'SIR', 'APF', 'FFPropY') else h.const(0), x))
        if filt in ('PF', 'SIR', 'FFPropY') and not (i in s.neg and not s.resampled):
            base = -h.log(h.const(s.N)) if s.resampled else wold[i]
            h.eq(s.pa.w[i] + s.pa.w_offset, base + inc, 'offset plus log-weight is the old log-weight plus the log-likelihood')
        elif filt in ('CPF', 'CPFAS'):
            h.eq(s.pa.w[i] + s.pa.w_offset, -h.log(h.const(s.N)) + inc, 'offset plus log-weight is the old log-weight plus the log-likelihood')
    check_weights(h, s.pa.w, lp, 'weights depend only on likelihood ratios')


def c05_measure(h):
    """a measurement of the current step, twice"""
    f = h.mod(FILTER)
    m = build(h, shift=h.p.get('lshift'), zero=h.p.get('zero', ()))
    N = h.p['N']
    pt = f.ParticleTrajectory(m, N, filter=h.p['filter'])
    pt.measure(20.0)
    rows = m.prov.rows(pt[0].pa.part)
    sh = h.p.get('lshift', {}).get('L', 0)
    lp = []
    z = [i for i in range(N) if ('L', i) in h.p.get('zero', ())]
    for i, x in enumerate(rows):
        if i in z:
            lp.append(None)
            continue
        v = h.log(m.dens('L', m.prov.d(x), 20.0, 0.0))
        lp.append(v)
        h.eq(pt[0].pa.w[i] + pt[0].pa.w_offset, v + sh - h.log(h.const(N)), 'offset plus log-weight is the old log-weight plus the log-likelihood')
    check_weights(h, pt[0].pa.w, lp, 'weights depend only on likelihood ratios')
    h.same(m.prov.rows(pt[0].pa.part), rows, 'measuring does not move particles')
    pt.measure(20.5)
    lp2 = []
    for i, x in enumerate(rows):
        v = plus(lp[i], None if i in z else h.log(m.dens('L', m.prov.d(x), 20.5, 0.0)))
        lp2.append(v)
        if v is not None:
            h.eq(pt[0].pa.w[i] + pt[0].pa.w_offset, v + 2 * sh - h.log(h.const(N)),
                 'the offset accumulates over measurements')
    check_weights(h, pt[0].pa.w, lp2, 'a second measurement multiplies the weights')


info('C05', B + 'common log-likelihood constants in {0,-1e6,1e6}, all filters, two successive measurements of the first step', STUB)
for filt in ('PF', 'APF', 'SIR', 'FFPropY', 'CPF', 'CPFAS', 'CSIRAS'):
    res = {} if filt.startswith('C') else dict(res=1)
    big = {'FFPropY': {'F': -1000000}, 'SIR': {'L': -1000000, 'F': 1000000, 'Q': 1000000}}.get(filt, {'L': -1000000})
    add('C05', label(filt + '-N3', big), c05, dict(res, N=3 if filt not in ('APF',) else 2, filter=filt, lshift=big))
    add('C05', label(filt + '-N2', {k: -v for k, v in big.items()}), c05, dict(res, N=2, filter=filt, lshift={k: -v for k, v in big.items()}))
    if res:
        add('C05', filt + '-N3-noresampling', c05, dict(N=3, filter=filt, res=0, lshift=big, shift=-1000000))
        add('C05', filt + '-N3-zeroweight', c05, dict(N=3, filter=filt, res=0, neginf=(1,)))
for filt in ('PF', 'SIR', 'APF'):
    add('C05', 'measure-' + filt, c05_measure, dict(N=3, filter=filt, lshift={'L': -1000000}))
    add('C05', 'measure-zero-' + filt, c05_measure, dict(N=2, filter=filt, zero=(('L', 0),)))
# more particles than a byte counts, few of them with arbitrary weights and densities
add('C06', 'large-never', c06, dict(N=294, res=0, few=(0, 292), many=60))
add('C06', 'large-always', c06, dict(N=130, res=1.0, few=(), many=10 ** 9))
add('C07', 'large-never', c07, dict(N=294, res=0, few=(0, 292), many=60))
for n in (140, 294):
    add('C07', 'large-always-%d' % n, c07, dict(N=n, res=1.0, few=(), many=60))
add('C08', 'large-never', c08, dict(N=294, res=0, few=(0, 292), many=60))
for n in (140, 294):
    add('C08', 'large-always-%d' % n, c08, dict(N=n, res=1.0, few=(), many=60))
for filt in ('CPF', 'CPFAS', 'CSIRAS', 'CPFYAS'):
    add('C09', filt + '-large', c09, dict(N=130, filter=filt, few=(), flat=True, many=10 ** 9))
