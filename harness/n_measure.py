"""C44: measurements of the newest step on their own, and updates that leave their argument intact."""
import numpy as np
from engine.cases import add, info, label
from harness.absmodel import build, num
from harness.b_filters import state, snapshot, unchanged, check_weights, plus, cond_traj

FILTER = 'pyparticleest.filter'


def line(m, traj, k, i):
    """digests of the ancestral line strictly before particle i of step k"""
    prov, out, a = m.prov, [], i
    for s in reversed(range(k)):
        a = int(traj[s + 1].ancestors[a])
        out.append(prov.d(prov.id(traj[s].pa.part[a])))
    return tuple(out)


def lkey(m, traj, k, i, x, y, nonm):
    return (m.prov.d(x), line(m, traj, k, i), y, float(k)) if nonm else (m.prov.d(x), y, float(k))


def c44_traj(h):
    """time updates and separate measurements in any order"""
    P = h.p
    f = h.mod(FILTER)
    N, nonm, filt = P['N'], P.get('nonmarkov', False), P['filter']
    sh = P.get('lshift', 0)
    m = build(h, nonmarkov=nonm, shift={'L': sh} if sh else None, pattern=False)
    prov = m.prov
    L = sum(1 for c in P['plan'] if c != 'm') + 1
    kw = {}
    if filt in ('CPF', 'CPFAS'):
        c, _ = cond_traj(h, f, m, L)
        kw = dict(filter_options={'cond_traj': c})
    pt = f.ParticleTrajectory(m, N, resample=h.unit('res') if P.get('res', 'any') == 'any' else P['res'], filter=filt, T=P.get('T'), **kw)
    us, ys, nm = [], {}, 0
    for c in P['plan']:
        if c == 'm':
            y = 20.25 + nm
            nm += 1
            k = max(len(pt) - 1, 0)
            new = len(pt) == 0
            old = None if new else [(s.pa.part.copy(), s.pa.w.copy(), [int(a) for a in s.ancestors], s.pa.w_offset) for s in pt.traj]
            pt.measure(y)
            ys[k] = y
            h.same(len(pt), k + 1, 'measuring adds no time step')
            h.same(num(pt.yvec[k]), y, 'the measurement is stored with its step')
            h.eq(pt.tvec[k], k, 'the measurement has the time of its step')
            s = pt[k]
            if new:
                was = ([-h.log(h.const(N))] * N, 0)
            else:
                h.eq(s.pa.part, old[k][0], 'measuring does not move particles')
                h.same([int(a) for a in s.ancestors], old[k][2], 'measuring does not change the ancestry')
                for q, o in zip(pt.traj[:k], old[:k]):
                    h.eq(q.pa.part, o[0], 'earlier steps stay as they are (particles)')
                    h.eq(q.pa.w, o[1], 'earlier steps stay as they are (weights)')
                    h.same([int(a) for a in q.ancestors], o[2], 'earlier steps stay as they are (ancestry)')
                was = (list(old[k][1]), old[k][3])
            lp = []
            for i, x in enumerate(prov.rows(s.pa.part)):
                v = was[0][i] + h.log(m.dens('L', *lkey(m, pt.traj, k, i, x, y, nonm)))
                lp.append(v)
                h.eq(s.pa.w[i] + s.pa.w_offset, v + was[1] + sh, 'offset plus log-weight grow by the log-likelihood')
            check_weights(h, s.pa.w, lp, 'a measurement multiplies the weights by the likelihoods given each particle\'s own history')
            continue
        k = max(len(pt) - 1, 0)
        y = None if c == 'f' else 30.0 + k
        us.append(10.0 + k)
        pt.forward(us[-1], y)
        h.same(len(pt), k + 2, 'one time step per call')
        for i, x in enumerate(prov.rows(pt[k + 1].pa.part)):
            key = prov.key(x)
            if key[0] != 'x':
                continue      # the conditioned state
            a = int(pt[k + 1].ancestors[i])
            h.same(key[1], prov.d(prov.id(pt[k].pa.part[a])), 'the particle was propagated from the ancestor it reports')
            h.same(key[3:], (10.0 + k, float(k)), 'propagated with input and time of its step')
        if y is not None:
            ys[k + 1] = y
    for k, y in ys.items():
        h.same(num(pt.yvec[k]), y, 'measurements stay with their step')
    for k, u in enumerate(us):
        h.same(num(pt.uvec[k]), u, 'inputs stay with their step')


def c44_same(h):
    """a time update followed by its measurement is the time update with measurement"""
    P = h.p
    f = h.mod(FILTER)
    N, steps = P['N'], P['steps']
    res = h.unit('res')
    out = []
    for split in (False, True):
        h.counter.clear()
        m = build(h, nonmarkov=P.get('nonmarkov', False), pattern=False)
        pt = f.ParticleTrajectory(m, N, resample=res, filter='PF', T=P.get('T'))
        pt.measure(20.0)
        for k in range(steps):
            if split:
                r = pt.forward(10.0 + k, None)
                pt.measure(21.0 + k)
            else:
                r = pt.forward(10.0 + k, 21.0 + k)
            out.append(bool(r))
        out.append(pt)
    a, b = out[steps], out[-1]
    h.same(out[:steps], out[steps + 1:-1], 'same decisions to resample')
    h.same(len(a), len(b), 'same number of steps')
    for p, q in zip(a.traj, b.traj):
        h.eq(p.pa.part, q.pa.part, 'same particles')
        h.eq(p.pa.w, q.pa.w, 'same weights')
        h.eq(p.pa.w_offset, q.pa.w_offset, 'same likelihood offset')
        h.same([int(x) for x in p.ancestors], [int(x) for x in q.ancestors], 'same ancestry')


def make(h, f, m, filt, c):
    return {'PF': lambda: f.ParticleFilter(m, 0.5), 'APF': lambda: f.AuxiliaryParticleFilter(m, 0.5), 'SIR': lambda: f.SIR(m, 0.5),
            'CPF': lambda: f.CPF(m, c), 'CPFAS': lambda: f.CPFAS(m, c)}[filt]()


def c44_update(h):
    """the time update of given ancestors, in place or not"""
    P = h.p
    k, N, nonm = P.get('k', 1), P['N'], P.get('nonmarkov', False)
    f, m, traj, ids, p, w = state(h, k)
    prov = m.prov
    c = cond_traj(h, f, m, k + 3)[0] if P['filter'].startswith('C') else None
    pf = make(h, f, m, P['filter'], c)
    anc = np.array([h.choose(N, 'ancestor') for _ in range(N)], dtype=int)
    u, y, t = h.arr([10.0 + i for i in range(k + 4)]), h.arr([20.0 + i for i in range(k + 4)]), h.arr([float(i) for i in range(k + 4)])
    snap, anc0 = snapshot(traj), list(anc)
    wn = h.vec('wn', N)
    given = f.ParticleApproximation(traj[-1].pa.part[anc].copy(), wn.copy())
    part0 = given.part.copy()
    for inplace in (False, True):
        r = pf.update(traj=traj, ancestors=anc, uvec=u, yvec=y, tvec=t, cur_ind=k, pa=given, inplace=inplace)
        if not inplace:
            h.eq(given.part, part0, 'the approximation is left intact (particles)')
            h.eq(given.w, wn, 'the approximation is left intact (weights)')
            h.eq(r.w, traj[-1].pa.w[anc], 'each particle has the weight of its ancestor')
        else:
            h.same(r is given, True, 'the approximation itself is updated')
            h.eq(r.w, wn, 'weights are not changed by a time update')
        h.same(len(r.part), N, 'number of particles')
        for i, x in enumerate(prov.rows(r.part)):
            key = prov.key(x)
            h.same(key[0], 'x', 'every particle is propagated once')
            h.same((key[1], key[3], key[4]), (prov.d(ids[anc0[i]]), 10.0 + k, float(k)), 'propagated from its ancestor with the input and time of the step')
            src = m.line(traj, anc0, i, '') if nonm else prov.d(ids[anc0[i]])
            h.same(prov.key(prov.by_digest(key[2]))[1:4], (src, 10.0 + k, float(k)), 'noise was drawn for that ancestor, input and time')
        unchanged(h, traj, snap)
        h.same(list(anc), anc0, 'the ancestors are left alone')


def c44_measure(h):
    """the measurement update of a given approximation, in place or not"""
    P = h.p
    k, N, nonm = P.get('k', 1), P['N'], P.get('nonmarkov', False)
    f, m, traj, ids, p, w = state(h, k)
    prov = m.prov
    c = cond_traj(h, f, m, k + 3)[0] if P['filter'].startswith('C') else None
    pf = make(h, f, m, P['filter'], c)
    anc = np.array([h.choose(N, 'ancestor') for _ in range(N)], dtype=int)
    u, y, t = h.arr([10.0 + i for i in range(k + 4)]), h.arr([20.0 + i for i in range(k + 4)]), h.arr([float(i) for i in range(k + 4)])
    snap, anc0 = snapshot(traj), list(anc)
    wn, off = h.vec('wn', N), h.real('off')
    xs = [prov.new('z', i) for i in range(N)]
    given = f.ParticleApproximation(m.arr(xs), wn.copy())
    given.w_offset = off
    part0 = given.part.copy()
    sh = P.get('lshift', {}).get('L', 0)
    for inplace in (False, True):
        r = pf.measure(traj=traj, ancestors=anc, pa=given, uvec=u, yvec=y, tvec=t, cur_ind=k + 1, inplace=inplace)
        h.eq(given.part, part0, 'particles are not moved')
        h.eq(r.part, part0, 'particles are not moved')
        h.same(r is given, inplace, 'working in place or not, as asked')
        if not inplace:
            h.eq(given.w, wn, 'the approximation is left intact (weights)')
            h.eq(given.w_offset, off, 'the approximation is left intact (offset)')
        lp = []
        for i in range(N):
            key = (prov.d(xs[i]), m.line(traj, anc0, i, ''), 21.0 + k, float(k + 1)) if nonm else (prov.d(xs[i]), 21.0 + k, float(k + 1))
            v = wn[i] + h.log(m.dens('L', *key))
            lp.append(v)
            h.eq(r.w[i] + r.w_offset, v + off + sh, 'offset plus log-weight grow by the log-likelihood')
        check_weights(h, r.w, lp, 'weights are multiplied by the likelihoods of the new measurement')
        unchanged(h, traj, snap)
        h.same(list(anc), anc0, 'the ancestors are left alone')


for filt, plan, kw in [('PF', 'fm', {}), ('PF', 'mfmf', {}), ('PF', 'mfmm', dict(T=4)), ('PF', 'Ffm', dict(nonmarkov=True)), ('PF', 'mfmFm', dict(nonmarkov=True, res=0)), ('PF', 'fmfm', dict(lshift=-1000000, res=0)),
                       ('PF', 'ffmF', dict(T=2, nonmarkov=True, res=0)), ('APF', 'fm', {}), ('APF', 'mFm', dict(nonmarkov=True)), ('SIR', 'mFm', dict(res=0)), ('CPF', 'mfm', dict(nonmarkov=True)), ('CPFAS', 'fmf', {})]:
    add('C44', label('calls', dict(filter=filt, plan=plan, **kw)), c44_traj, dict(kw, filter=filt, plan=plan, N=2))
for kw in [dict(steps=1), dict(steps=2, T=3), dict(steps=1, nonmarkov=True), dict(steps=1, N=3)]:
    add('C44', label('split', kw), c44_same, dict(dict(N=2), **kw))
for filt in ('PF', 'APF', 'CPF', 'CPFAS'):
    add('C44', 'update-%s' % filt, c44_update, dict(filter=filt, N=2))
    if filt in ('PF', 'CPF'):
        add('C44', 'update-%s-nonmarkov' % filt, c44_update, dict(filter=filt, N=3 if filt == 'PF' else 2, nonmarkov=True))
for filt in ('PF', 'APF', 'SIR', 'CPF', 'CPFAS'):
    add('C44', 'measure-%s' % filt, c44_measure, dict(filter=filt, N=2, lshift={'L': -1000000}))
    add('C44', 'measure-%s-nonmarkov' % filt, c44_measure, dict(filter=filt, N=2 if filt != 'PF' else 3, nonmarkov=True))
for filt, plan, kw in [('PF', 'mfmfmfm', dict(N=2)), ('PF', 'mfmfm', dict(N=3, nonmarkov=True)), ('APF', 'mfmFm', dict(N=2)), ('CPFAS', 'mfmfm', dict(N=2, nonmarkov=True))]:
    add('C44', label('calls', dict(filter=filt, plan=plan, **kw)), c44_traj, dict(kw, filter=filt, plan=plan), tier='thorough', budget=500)
info('C44', 'up to 4 time steps and 4 measurements in the orders listed (m: measurement, f: time update without, F: with measurement), 2 to 3 particles, every likelihood, weight, threshold and random offset, storage grown or preallocated, Markov and non-Markov models',
     ['the user model answers with arbitrary densities of opaque particles and checks the history it is handed'])
