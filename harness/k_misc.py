"""C41: density of a sum of uniforms; C42: instrumented models."""
import contextlib
import io
import re
import numpy as np
from engine.cases import add, info, label
from harness import absmodel


def c41(h):
    U = h.mod('pyparticleest.utils.pdf')
    a = [h.real('a0'), h.real('a1')]
    b = [h.real('b0'), h.real('b1')]
    if h.p.get('eq'):
        b[1] = b[0] + (a[1] - a[0])
    h.assume(h.ne(a[0], a[1]))
    h.assume(h.ne(b[0], b[1]))
    p = h.real('p')
    conv = {'list': list, 'tuple': tuple, 'array': lambda v: h.mkarr(v, (2,))}[h.p['how']]
    f = U.unifsum(conv(a), conv(b))
    v = f(p)
    lo1, hi1 = (a[0], a[1]) if h.less(a[0], a[1]) else (a[1], a[0])
    lo2, hi2 = (b[0], b[1]) if h.less(b[0], b[1]) else (b[1], b[0])
    # length of { x in [lo1, hi1] : lo2 <= p - x <= hi2 }
    top = p - lo2 if h.less(p - lo2, hi1) else hi1
    bot = p - hi2 if h.less(lo1, p - hi2) else lo1
    ln = top - bot if h.less(bot, top) else h.const(0)
    h.eq(v * (hi1 - lo1) * (hi2 - lo2), ln, 'density is the convolution of the two uniform densities')
    h.true(h.le(0, v), 'density is not negative')
    # asking again, or at another point first, makes no difference
    q = h.real('q')
    f(q)
    h.eq(f(p), v, 'the density does not depend on earlier evaluations')


for how in ('list', 'tuple', 'array'):
    add('C41', 'sum-%s' % how, c41, dict(how=how))
add('C41', 'sum-equal-widths', c41, dict(how='list', eq=True))
info('C41', 'none on the numbers: every pair of non-degenerate intervals with limits in either order and every real point; that the density integrates to one follows from it being the convolution',
     ['real numbers in place of floating point', 'intervals of positive width'])


# ------------------------------------------------------------------ C42
def names(s):
    return s.split()


# method, arguments; what is counted and by the length of which arguments
METHODS = [
    ('create_initial_estimate', 'N', None, ''),
    ('sample_process_noise_full', 'ptraj ancestors ut tt', 'cnt_sample', 'ancestors'),
    ('update_full', 'particles traj uvec yvec tvec ancestors noise', 'cnt_update', 'particles'),
    ('measure_full', 'particles traj uvec yvec tvec ancestors', 'cnt_measure', 'particles'),
    ('measure', 'particles y t', 'cnt_measure', 'particles'),
    ('copy_ind', 'particles new_ind', None, ''),
    ('logp_xnext', 'particles next_part u t', 'cnt_pdfxn', 'particles next_part'),
    ('logp_xnext_max_full', 'part past_trajs pind uvec yvec tvec cur_ind', 'cnt_pdfxnmax', 'part'),
    ('sample_smooth', 'part ptraj anc future_trajs find ut yt tt cur_ind', None, ''),
    ('propose_smooth', 'ptraj anc future_trajs find yt ut tt cur_ind', 'cnt_propsmooth', 'anc'),
    ('logp_proposal', 'prop_part ptraj anc future_trajs find yt ut tt cur_ind', 'cnt_pdfsmooth', 'prop_part'),
    ('logp_xnext_full', 'part past_trajs pind future_trajs find ut yt tt cur_ind', 'cnt_pdfxn', 'part find'),
    ('logp_xnext_singlestep', 'part past_trajs pind future_parts find ut yt tt cur_ind', 'cnt_pdfxn', 'part find'),
    ('eval_1st_stage_weights', 'particles u y t', 'cnt_eval1st', 'particles'),
    ('pre_mhips_pass', 'st', None, ''),
    ('post_smoothing', 'st', None, ''),
    ('eval_logp_x0', 'particles t', 'cnt_eval_logp_x0', 'particles'),
    ('cond_predict_single_step', 'part past_trajs pind future_parts find ut yt tt cur_ind', None, ''),
    ('cond_sampled_initial', 'part t', None, ''),
    ('qsample', 'particles u y t', None, ''),
    ('logp_q', 'particles next_part u y t', None, ''),
    ('propose_from_y', 'N y t', None, ''),
    ('set_params', 'params', None, ''),
]
COUNTERS = ['cnt_sample', 'cnt_update', 'cnt_measure', 'cnt_pdfxn', 'cnt_pdfxnmax', 'cnt_propsmooth', 'cnt_pdfsmooth', 'cnt_eval1st', 'cnt_eval_logp_x0']


class Sized(object):
    """an argument that can only be handed on and counted"""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


def counts(oc):
    """evaluations by kind; the two counters of transition densities together"""
    out = {c: getattr(oc, c) for c in COUNTERS}
    out['cnt_pdfxn'] = out['cnt_pdfxn'] + oc.cnt_pdfxn_full
    return out


def c42(h):
    I = h.mod('pyparticleest.utils.intrument')
    got = []

    class Model(object):
        def __getattr__(self, name):
            if name not in [m[0] for m in METHODS]:
                raise AttributeError(name)

            def f(*args, **kw):
                got.append((name, args, kw))
                return got[-1]
            return f
    m = Model()
    w = I.Instrumenter(m)
    # what was counted before: anything
    for c in COUNTERS + ['cnt_pdfxn_full']:
        setattr(w.oc, c, h.real(c))
    name, argn, counter, by = METHODS[h.choose(len(METHODS), 'method')]
    argn = names(argn)
    first = names(by)[0] if by else None
    vals = {a: Sized(h.choose(3, a)) if a in names(by) else Sized(5) for a in argn}
    if name == 'propose_smooth' and h.choose(2, 'first step'):
        vals['ptraj'] = vals['anc'] = None
        vals['find'] = Sized(h.choose(3, 'find'))
        by = 'find'
    n = max([vals[a].n for a in names(by)] or [0])
    old = counts(w.oc)
    k = h.choose(len(argn) + 1, 'positional arguments') if len(argn) < 4 else (0, len(argn))[h.choose(2, 'by keyword')]
    r = getattr(w, name)(*[vals[a] for a in argn[:k]], **{a: vals[a] for a in argn[k:]})
    h.same(len(got), 1, 'the model method is called once')
    h.same(r is got[0], True, 'the result of the model is returned')
    h.same(got[0][0], name, 'the same method of the model is called')
    have = dict(zip(argn, got[0][1]))
    have.update(got[0][2])
    h.same(sorted(have), sorted(argn), 'all arguments are handed on')
    for a in argn:
        h.same(have[a] is vals[a], True, 'argument %s is handed on unchanged' % a)
    new = counts(w.oc)
    for c in COUNTERS:
        h.eq(new[c], old[c] + (n if c == counter else 0), 'evaluations are counted by the number of particles, in their own counter')


def c42_sum(h):
    I = h.mod('pyparticleest.utils.intrument')
    fields = COUNTERS + ['cnt_pdfxn_full']
    a, b = {c: h.real('a' + c) for c in fields}, {c: h.real('b' + c) for c in fields}
    x, y = I.OpCount(**a), I.OpCount(**b)
    s = x + y
    for c in fields:
        h.eq(getattr(s, c), a[c] + b[c], 'sums of counters')
        h.eq(getattr(x, c), a[c], 'operands are unchanged')
        h.eq(getattr(y, c), b[c], 'operands are unchanged')
        h.eq(getattr(I.OpCount(), c), 0, 'counting starts at zero')


def c42_run(h):
    """a filter and smoother run with the wrapped model gives the same result as with the model itself"""
    I = h.mod('pyparticleest.utils.intrument')
    sim = h.mod('pyparticleest.simulator')
    P = h.p
    N, M, L = P['N'], P['M'], P['L']
    u = [h.f(3 * k + 1, 2) for k in range(L)]
    y = [h.f(5 * k + 2, 3) for k in range(L)]
    if P.get('miss') is not None:
        y[P['miss']] = None
    res = []
    for wrap in (False, True):
        if wrap:
            h.counter.clear()
        m = absmodel.build(h, extra=lambda cls, prov: with_params(cls))
        nch = len(h.choices)
        mod = I.Instrumenter(m) if wrap else m
        s = sim.Simulator(mod, list(u), list(y))
        s.set_params(h.vec('theta', 2))
        h.eq(m.params, h.vec('theta', 2), 'parameters reach the model')
        n = s.simulate(N, M, filter=P['filter'], smoother=P['smoother'], res=P.get('res', 1), meas_first=P.get('meas', False))
        h.same(len(h.choices), nch, 'no permutations in these cases')
        res.append((n, s, mod))
    (n0, s0, _), (n1, s1, w) = res
    h.same(int(n0), int(n1), 'same number of resamplings')
    h.same(len(s0.pt), len(s1.pt), 'same number of steps')
    for k in range(len(s0.pt)):
        p, q = s0.pt[k], s1.pt[k]
        h.eq(p.pa.part, q.pa.part, 'wrapping does not change the particles')
        h.eq(p.pa.w, q.pa.w, 'wrapping does not change the weights')
        h.same(list(p.ancestors), list(q.ancestors), 'wrapping does not change the ancestry')
        if M:
            h.eq(s0.straj.traj[k].pa.part, s1.straj.traj[k].pa.part, 'wrapping does not change the smoothed trajectories')
    T = len(s0.pt)
    if P['filter'] in ('PF', 'APF'):
        h.same((w.oc.cnt_sample, w.oc.cnt_update), (N * (T - 1), N * (T - 1)), 'one noise sample and update per particle and step')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        w.print_statistics()
        w.print_total_ops()
    c = counts(w.oc)
    shown = dict(re.findall(r'(\w[\w ]*): (\d+)', out.getvalue()))
    for k in COUNTERS[:7]:
        h.same(shown.get(k), str(int(c[k])), 'statistics show the counter %s' % k)
    h.same(shown.get('total ops'), str(sum(int(c[k]) for k in COUNTERS[:7])), 'total of all operations')


def with_params(cls):
    class C(cls):
        def set_params(self, p):
            self.params = p
    return C


def c42_print(h):
    """what is printed, counter by counter"""
    I = h.mod('pyparticleest.utils.intrument')
    w = I.Instrumenter(object())
    fields = COUNTERS + ['cnt_pdfxn_full']
    c = fields[h.choose(len(fields), 'counter')]
    for i, x in enumerate(fields):
        setattr(w.oc, x, 3 + i)
    setattr(w.oc, c, 1000)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        w.print_statistics()
        w.print_total_ops()
    n = counts(w.oc)
    shown = dict(re.findall(r'(\w[\w ]*): (\d+)', out.getvalue()))
    for k in COUNTERS[:7]:
        h.same(shown.get(k), str(int(n[k])), 'statistics show the counter %s' % k)
    h.same(shown.get('total ops'), str(sum(int(n[k]) for k in COUNTERS[:7])), 'total of all operations')


add('C42', 'printed', c42_print, {}, runs=4)
add('C42', 'methods', c42, {}, runs=4)
add('C42', 'sums', c42_sum, {}, runs=2)
for kw in [dict(N=2, M=2, L=2, filter='PF', smoother='full'), dict(N=2, M=2, L=2, filter='APF', smoother='ancestor', meas=True), dict(N=2, M=1, L=2, filter='SIR', smoother='ancestor', meas=True, res=0), dict(N=3, M=0, L=2, filter='PF', smoother=None, miss=0, res=0)]:
    add('C42', label('run', kw), c42_run, kw, runs=3)
info('C42', 'every method of the wrapper with every way of passing arguments and 0 to 2 particles, any earlier counts; runs of up to 3 particles and 3 steps with the plain, auxiliary and SIR filters and ancestor or backward simulation',
     ['the wrapped model answers with opaque objects; in the runs, with arbitrary densities of opaque particles', 'transition densities counted in cnt_pdfxn or cnt_pdfxn_full, the statistics show their sum'])
