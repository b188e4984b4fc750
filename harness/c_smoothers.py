"""C13-C18 and the smoother part of C10: smoothers against a reference computed from provenance only."""
import numpy as np
from engine.cases import add, info, label
from harness import smodel as X

STUB = ['the user model is abstract: opaque particles, densities arbitrary positive numbers named by all their arguments',
        'uniform draws are arbitrary reals strictly between 0 and 1; permutations and ancestry tables are arbitrary (all alternatives explored)',
        'ties (a uniform number exactly on a decision boundary) have probability zero and are excluded']


def adaptive(x1, P1, sv, sw, ratio, N, h):
    def stop(hist):
        p, P = x1, P1
        for mk, ak in hist:
            # Kalman filter for the acceptance probability: ak = mk*p + e, then the remaining trajectories
            K = mk * P / (mk * mk * P + sw * sw)
            p = p + K * (ak - mk * p)
            P = (1 - K * mk) * P
            r = h.f(ak, mk)
            p = (1 - r) * p
            P = (1 - r) * (1 - r) * P + sv * sv
        if isinstance(p, (int, float)):
            return p < ratio / N
        return h.less(p * N, ratio)
    return stop


def reference(s, method, opts, tape):
    h = s.h
    if method == 'ancestor':
        return X.ref_ancestor(s, tape)
    if method == 'full':
        return X.ref_full(s, tape)
    if method == 'rs':
        return X.ref_rs(s, tape, opts.get('R', int(0.1 * s.N)))
    if method == 'rsas':
        o = dict(x1=1.0, P1=1.0, sv=1.0, sw=1.0, ratio=1.0)
        o.update(opts)
        return X.ref_rs(s, tape, None, adaptive(o['x1'], o['P1'], o['sv'], o['sw'], o['ratio'], s.N, h))
    if method == 'mcmc':
        return X.ref_mcmc(s, tape, opts['R'])
    if method in ('mhips', 'mhips_reduced'):
        return X.ref_mhips(s, tape, opts['R'], method == 'mhips_reduced')
    return X.ref_mhbp(s, tape, opts['R'])


def smooth(h):
    s = X.setup(h)
    method = h.p['method']
    opts = dict(h.p.get('opts', {}))
    snap = X.snap_pt(s)
    if h.p.get('rounds'):
        limit_rounds(s, h.p['rounds'])
    st = X.run(s, method, opts)
    ref = reference(s, method, opts, h.tape())
    X.compare(s, st.traj, ref, 'every trajectory has the states the method draws')
    X.check_pt(s, snap)
    return s, st


def limit_rounds(s, n):
    """only executions with at most n rejection rounds per step (a bound)"""
    cnt = {}
    orig = s.m.logp_xnext_full

    def counted(part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        k = int(cur_ind)
        if len(part) != s.N or len(set(int(i) for i in find)) > 1 or s.N == 1:
            cnt[k] = cnt.get(k, 0) + 1
            s.h.assume(cnt[k] <= n)
        return orig(part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind)
    s.m.logp_xnext_full = counted


def mk(prop, method, **kw):
    tier = kw.pop('tier', 'quick')
    kw['method'] = method
    add(prop, label(method, {k: v for k, v in kw.items() if k != 'method'}), smooth, kw, tier=tier, runs=4)


# ------------------------------------------------------------------ C13
info('C13', 'N<=4 particles, M<=3 trajectories, T<=4 steps; every ancestry table for N=2,T=3 and N=3,T=2; all weights', STUB)
mk('C13', 'ancestor', N=2, M=2, T=3, anc='all', tag=True)
mk('C13', 'ancestor', N=3, M=2, T=2, anc='all', nonmarkov=True)
mk('C13', 'ancestor', N=3, M=3, T=3, tag=True, nonmarkov=True, prealloc=1)
mk('C13', 'ancestor', N=4, M=2, T=4, tag=True, missing=(1,))
mk('C13', 'ancestor', N=3, M=2, T=2, neginf=((1, 0),), shift={1: -1000000})
mk('C13', 'ancestor', N=2, M=1, T=1, tag=True)
mk('C13', 'ancestor', N=3, M=3, T=3, anc='all', tag=True, tier='thorough')


def hooks(h):
    """post_smoothing and pre_mhips_pass see the path and their results are used"""
    s = X.setup(h)
    prov = s.prov
    m = s.m
    seen = []

    def post(st):
        h.same(st.M, s.M, 'post_smoothing sees the number of trajectories')
        rows = X.smoothed_rows(s, st.traj)
        h.same(st.model is m, True, 'post_smoothing belongs to the model')
        for k in range(s.T):
            m.at_data(k, st.u, st.y, st.t, 'post_smoothing')
        seen.append(rows)
        out = np.empty(s.T, dtype=object)
        for k in range(s.T):
            ids = [r if prov.key(r)[0] == 'post' else m.at(k, prov.new('post', prov.d(r), tuple(prov.d(rows[t][j]) for t in range(s.T)), j))
                   for j, r in enumerate(rows[k])]
            out[k] = s.f.TrajectoryStep(s.f.ParticleApproximation(m.arr(ids)), np.arange(s.M))
        return out

    def pre(st):
        rows = X.smoothed_rows(s, st.traj)
        out = np.empty(s.T, dtype=object)
        for k, r in enumerate(pre_rows(rows)):
            out[k] = s.f.TrajectoryStep(s.f.ParticleApproximation(m.arr(r)), np.arange(s.M))
        return out

    def pre_rows(rows):
        return [[m.at(k, prov.new('pre', prov.d(r), j)) for j, r in enumerate(rows[k])] for k in range(s.T)]
    m.post_smoothing = post
    if h.p.get('pre'):
        m.pre_mhips_pass = pre
    method = h.p['method']
    opts = dict(h.p.get('opts', {}))
    st = X.run(s, method, opts)
    tape = h.tape()
    if h.p.get('pre'):
        ref = X.ref_mhips(s, tape, opts['R'], method == 'mhips_reduced', pre_rows)
    else:
        ref = reference(s, method, opts, tape)
    h.same(len(seen) > 0, True, 'post_smoothing is called')
    for k in range(s.T):
        h.same(seen[0][k], ref[k], 'post_smoothing sees the smoothed trajectories')
    got = X.smoothed_rows(s, st.traj)
    for k in range(s.T):
        want = [prov.new('post', prov.d(r), tuple(prov.d(ref[t][j]) for t in range(s.T)), j) for j, r in enumerate(ref[k])]
        h.same(got[k], want, 'the result of post_smoothing is returned')


for meth, kw in [('ancestor', {}), ('full', {}), ('mcmc', dict(opts={'R': 1})), ('mhbp', dict(opts={'R': 1}))]:
    add('C13', 'hook-' + meth, hooks, dict(kw, method=meth, N=2, M=2, T=2, tag=True), runs=4)

# ------------------------------------------------------------------ C14
info('C14', 'N<=3 particles, M<=3 trajectories, T<=3 steps, all weights and densities, zero densities and zero weights, common offsets of +-1e6', STUB)
mk('C14', 'full', N=2, M=2, T=3, tag=True)
mk('C14', 'full', N=3, M=2, T=2, nonmarkov=True)
mk('C14', 'full', N=3, M=2, T=1, tag=True)
mk('C14', 'full', N=2, M=3, T=2, tag=True, nonmarkov=True, missing=(0,))
mk('C14', 'full', N=3, M=1, T=3, tag=True, nonmarkov=True)
mk('C14', 'full', N=3, M=2, T=2, zero=((0, 1),), shift={0: -1000000, 1: 1000000})
mk('C14', 'full', N=2, M=1, T=2, scale={(0, 0): 3000, (0, 1): -3000})
mk('C14', 'full', N=3, M=1, T=2, scale={(0, 1): -5000}, nonmarkov=True)
mk('C14', 'full', N=2, M=2, T=2, lshift={'FF': 1000000}, nonmarkov=True)
mk('C14', 'full', N=3, M=1, T=2, lshift={'F': -1000000}, shift={0: -1000000})
mk('C14', 'full', N=3, M=1, T=2, zero=((0, 0),), neginf=((0, 2), (1, 1)), nonmarkov=True)
mk('C14', 'full', N=3, M=2, T=3, tag=True, tier='thorough')
mk('C14', 'full', N=4, M=2, T=2, tag=True, nonmarkov=True, tier='thorough')

# ------------------------------------------------------------------ C15
info('C15', 'N<=3, M<=2, T<=3, up to 2 tries; the adaptive rule with the default and with arbitrary positive parameters for up to 2 rounds; all permutations', STUB)
mk('C15', 'rs', N=2, M=2, T=2, opts={'R': 1})
mk('C15', 'rs', N=3, M=2, T=1, opts={'R': 1}, nonmarkov=True)
mk('C15', 'rsas', N=2, M=2, T=1)
mk('C15', 'rs', N=2, M=2, T=2, opts={'R': 2}, nonmarkov=True, tier='thorough')
mk('C15', 'rs', N=2, M=1, T=2, opts={'R': 3}, nonmarkov=True)
mk('C15', 'rs', N=3, M=1, T=2, opts={'R': 2}, tag=True)
mk('C15', 'rs', N=2, M=1, T=3, opts={'R': 1}, tag=True, nonmarkov=True)
mk('C15', 'rs', N=3, M=2, T=2)
mk('C15', 'rs', N=2, M=2, T=2, opts={'R': 1}, zero=((0, 0),), shift={0: -1000000})
mk('C15', 'rsas', N=2, M=1, T=2)
mk('C15', 'rs', N=2, M=2, T=2, opts={'R': 1}, lshift={'F': -1000000, 'M': -1000000})
mk('C15', 'rsas', N=2, M=1, T=2, lshift={'FF': 1000000, 'M': 1000000}, nonmarkov=True)
mk('C15', 'rsas', N=2, M=2, T=2, tag=True)
mk('C15', 'rsas', N=3, M=1, T=2, opts={'sv': 0.1, 'ratio': 1.0}, nonmarkov=True)
mk('C15', 'rs', N=2, M=3, T=2, opts={'R': 1}, tier='thorough')


def rsas_symbolic(h):
    """arbitrary positive parameters of the adaptive rule"""
    s = X.setup(h)
    names = ('x1', 'P1', 'sv', 'sw', 'ratio')
    opts = {k: h.pos(k) for k in names}
    rounds = h.p['rounds']
    cnt = {}
    uni = h.rnd.uniform

    def counted(low=0.0, high=1.0, size=None):
        cnt['n'] = cnt.get('n', 0) + 1
        h.assume(cnt['n'] <= rounds)
        return uni(low, high, size)
    h.rnd.uniform = counted
    if not h.sym:
        np.random.uniform = counted
    snap = X.snap_pt(s)
    st = X.run(s, 'rsas', opts)
    X.compare(s, st.traj, reference(s, 'rsas', opts, h.tape()), 'every trajectory has the states the method draws')
    X.check_pt(s, snap)


add('C15', 'rsas-any-parameters', rsas_symbolic, dict(N=2, M=1, T=2, rounds=2), runs=4)
add('C15', 'rsas-any-parameters-M2', rsas_symbolic, dict(N=2, M=2, T=2, rounds=2), runs=4, tier='thorough')



def direct(h):
    """the samplers called directly, several trajectories sharing the futures named by find"""
    s = X.setup(h)
    S = h.mod('pyparticleest.smoother')
    m, prov, N = s.m, s.prov, s.N
    find = list(h.p['find'])
    fids = [m.at(1, prov.new('f', i)) for i in range(max(find) + 1)]
    ft = np.empty(1, dtype=object)
    ft[0] = s.f.TrajectoryStep(s.f.ParticleApproximation(m.arr(fids)), np.arange(len(fids)))
    kw = dict(ut=s.pt.uvec, yt=s.pt.yvec, tt=s.pt.tvec, cur_ind=0)
    st = [None, [fids[q] for q in find]]
    s.M = len(find)
    a = (m, s.pt[0].pa, s.pt[:0], s.pt[0].ancestors, ft, np.array(find))
    lmax = h.log(m.dens('M', 0, *[prov.d(i) for i in s.ids[0]]))
    meth = h.p['method']
    if meth == 'full':
        res = S.bsi_full(*a, **kw)
        tape = h.tape()
        want = [X.ref_full_step(s, tape, 0, st, j) for j in range(s.M)]
    elif meth == 'rs':
        res = S.bsi_rs(*a, maxpdf=lmax, max_iter=1, **kw)
        want = X.ref_rs(s, h.tape(), 1, only=st)
    elif meth == 'rsas':
        res = S.bsi_rsas(*a, maxpdf=lmax, x1=1.0, P1=1.0, sv=1.0, sw=1.0, ratio=1.0, **kw)
        want = X.ref_rs(s, h.tape(), None, adaptive(1.0, 1.0, 1.0, 1.0, 1.0, N, h), only=st)
    else:
        start = [1 % N] * s.M
        res = S.bsi_mcmc(*a, R=1, ancestors=np.array(start), **kw)
        want = X.ref_mcmc(s, h.tape(), 1, only=st, start=start)
    h.same([int(i) for i in res], want, 'every trajectory draws for its own future')


for meth, prop in (('full', 'C14'), ('rs', 'C15'), ('rsas', 'C15'), ('mcmc', 'C16')):
    add(prop, 'shared-futures-' + meth, direct, dict(method=meth, N=2, M=2, T=2, find=(1, 0)), runs=4)
add('C14', 'shared-futures-full-3', direct, dict(method='full', N=2, M=2, T=2, find=(1, 0, 1), nonmarkov=True), runs=4)

# ------------------------------------------------------------------ C16
info('C16', 'N<=3, M<=2, T<=3, up to 2 iterations (3 in thorough); all permutations and every ancestry table for N=2', STUB)
mk('C16', 'mcmc', N=2, M=2, T=2, opts={'R': 1}, anc='all')
mk('C16', 'mcmc', N=2, M=1, T=3, opts={'R': 1}, tag=True)
mk('C16', 'mcmc', N=2, M=1, T=2, opts={'R': 2}, nonmarkov=True)
mk('C16', 'mcmc', N=3, M=2, T=1, opts={'R': 1}, tag=True)
mk('C16', 'mcmc', N=3, M=1, T=3, opts={'R': 1}, nonmarkov=True, tag=True)
mk('C16', 'mcmc', N=3, M=2, T=2, opts={'R': 1}, shift={0: 1000000, 1: -1000000})
mk('C16', 'mcmc', N=3, M=1, T=2, opts={'R': 2})
mk('C16', 'mcmc', N=2, M=1, T=2, opts={'R': 1}, lshift={'F': -1000000})
mk('C16', 'mcmc', N=2, M=1, T=2, opts={'R': 1}, lshift={'FF': 1000000}, nonmarkov=True)
mk('C16', 'mcmc', N=2, M=2, T=2, opts={'R': 2}, tier='thorough')
mk('C16', 'mcmc', N=2, M=1, T=2, opts={'R': 3}, tier='thorough')

# ------------------------------------------------------------------ C17
info('C17', 'N<=3, M<=2, T<=3, up to 2 passes or iterations; with and without measurement; models that rewrite their particles when measured or re-conditioned', STUB)
for meth in ('mhips', 'mhips_reduced', 'mhbp'):
    mk('C17', meth, N=2, M=1, T=3, opts={'R': 1}, tag=True)
    mk('C17', meth, N=2, M=1, T=3, opts={'R': 1}, tag=True, nonmarkov=True)
    mk('C17', meth, N=2, M=2, T=2, opts={'R': 1})
    mk('C17', meth, N=2, M=1, T=2, opts={'R': 1}, lshift={'L': -1000000, 'F': -1000000, 'FF': 1000000, 'S': -1000000, 'I': 1000000})
    mk('C17', meth, N=2, M=1, T=2, opts={'R': 1}, lshift={'L': 1000000, 'F': 1000000, 'FF': -1000000, 'S': 1000000, 'I': -1000000}, nonmarkov=True)
    mk('C17', meth, N=2, M=1, T=1, opts={'R': 2}, tag=True)
    mk('C17', meth, N=2, M=2, T=1, opts={'R': 1}, nonmarkov=True, missing=(0,))
    mk('C17', meth, N=2, M=1, T=2, opts={'R': 2}, tag=True, missing=(1,))
    mk('C17', meth, N=3, M=1, T=3, opts={'R': 1}, tag=True, missing=(0,), prealloc=1)
    mk('C17', meth, N=2, M=1, T=2, opts={'R': 3} if meth != 'mhbp' else {'R': 2})
    mk('C17', meth, N=3, M=1, T=2, opts={'R': 2}, tier='quick' if meth == 'mhbp' else 'thorough')
    mk('C17', meth, N=2, M=2, T=3, opts={'R': 1}, tag=True, nonmarkov=True, tier='thorough')
add('C17', 'pre-pass-hook', hooks, dict(method='mhips', N=2, M=1, T=2, tag=True, pre=True, opts={'R': 2}), runs=4)
add('C17', 'pre-pass-hook-reduced', hooks, dict(method='mhips_reduced', N=2, M=1, T=2, tag=True, pre=True, opts={'R': 1}), runs=4)

# ------------------------------------------------------------------ C18
info('C18', 'all methods with arbitrary inputs and measurements, N=2, M<=2, T<=4, present and missing measurements, grown and preallocated storage, Markov and non-Markov models', STUB)
for meth, o in [('ancestor', {}), ('full', {}), ('rs', {'R': 1}), ('rsas', {}), ('mcmc', {'R': 1}), ('mhips', {'R': 1}), ('mhips_reduced', {'R': 1}), ('mhbp', {'R': 1})]:
    mk('C18', meth, N=2, M=2, T=1, opts=o, tag=True, symdata=1)
    mk('C18', meth, N=2, M=1, T=4 if meth in ('ancestor', 'full') else 3 if meth != 'rsas' else 2, opts=o, tag=True, nonmarkov=True, symdata=1)
    mk('C18', meth, N=2, M=2 if meth in ('ancestor', 'full') else 1, T=3 if meth != 'rsas' else 2, opts=o, tag=True, symdata=1, prealloc=1, missing=(1,))

# ------------------------------------------------------------------ C10, the smoothing part
for meth, o in [('ancestor', {}), ('full', {}), ('rs', {'R': 1}), ('rsas', {}), ('mcmc', {'R': 2}), ('mhips', {'R': 1}), ('mhips_reduced', {'R': 1}), ('mhbp', {'R': 1})]:
    mk('C10', meth, N=2, M=2 if meth in ('ancestor', 'full') else 1, T=2 if meth in ('mcmc', 'rsas') else 3, opts=o, tag=True, symdata=1)
    mk('C10', meth, N=2, M=2, T=2, opts=dict(o, R=1), nonmarkov=True, symdata=1, missing=(1,))

# more particles or trajectories than a byte counts: a single end particle, or densities that leave nothing to chance
ONE = tuple((1, i) for i in range(130) if i != 128)
LAST = tuple((0, i) for i in range(129))


def large(prop, meth, **kw):
    kw = dict(dict(N=130, M=130, T=2, many=10 ** 9, flat=True), method=meth, **kw)
    add(prop, '%s-large-M%d' % (meth, kw['M']), smooth, kw, runs=4)


large('C13', 'ancestor', T=3)
large('C17', 'mhips', T=3, opts={'R': 1})
large('C17', 'mhips_reduced', T=3, opts={'R': 1})
for prop, meth, o in [('C14', 'full', {}), ('C15', 'rs', {'R': 1}), ('C15', 'rsas', {}), ('C16', 'mcmc', {'R': 2}), ('C17', 'mhbp', {'R': 1})]:
    large(prop, meth, opts=o, neginf=LAST)
add('C14', 'full-large-M1', smooth, dict(method='full', N=130, M=1, T=2, many=10 ** 9, neginf=ONE), runs=4)
add('C13', 'ancestor-large-M1', smooth, dict(method='ancestor', N=130, M=1, T=2, many=10 ** 9), runs=4)

# long histories
for prop, meth, o in [('C13', 'ancestor', {}), ('C14', 'full', {}), ('C15', 'rs', {'R': 1}), ('C15', 'rsas', {}), ('C16', 'mcmc', {'R': 1}), ('C17', 'mhips', {'R': 1}), ('C17', 'mhips_reduced', {'R': 1}), ('C17', 'mhbp', {'R': 1})]:
    add(prop, meth + '-long', smooth, dict(method=meth, N=2, M=1, T=130, many=10 ** 9, flat=True, opts=o,
                                           neginf=() if meth[:3] in ('anc', 'mhi') else tuple((k, 1 - k // 3 % 2) for k in range(130))), runs=4)
