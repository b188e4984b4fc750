"""C47: the tables of the gradient test."""
import numpy as np
from engine.cases import add, info, label
from harness.l_paramest import Terms, total, PI

GT = 'pyparticleest.paramest.gradienttest'


def c47(h):
    P = h.p
    nth, nv, pid = P['nth'], P['nv'], P['pid']
    G = h.mod(GT)
    S = Terms(h, P['T'], P['M'], 1, nth, P.get('how', {}), P.get('miss', ()))
    theta = h.vec('theta', nth)
    vals = [h.real('val%d' % k) for k in range(nv)]
    for a in range(nv):
        h.assume(h.ne(vals[a], theta[pid]))
        for b in range(a):
            h.assume(h.ne(vals[a], vals[b]))

    def cand(k):
        return h.mkarr([vals[k] if j == pid else theta[j] for j in range(nth)], (nth,))
    state = dict(n=0)

    def seen(p):        # evaluated in any order, but always for one of the candidates
        h.same(np.shape(p), (nth,), 'all parameters are set')
        if state['n'] == 0:
            h.eq(p, theta, 'the trajectories are computed for the given parameters')
            return -1
        for k in range(nv):
            if bool(p[pid] == vals[k]):
                h.eq(p, cand(k), 'only the tested parameter is changed')
                return k
        h.fail('the tested parameter takes the values asked for', '')
    S.seen = seen
    m = S.model(h.mod(PI).ParamEstInterface_GradientSearch)()
    sims = []

    class E(G.GradientTest):
        def simulate(self, num_part, num_traj, *a, **kw):
            h.same((num_part, num_traj), (P.get('num', 100), P['M'] if P.get('num') else 1), 'numbers of particles and trajectories')
            sims.append(1)
            self.straj = S.straj()
            state['n'] = 1
            return 0
    e = E(m, S.u, [S.y[k] for k in range(P['T'])])
    e.set_params(theta.copy())
    arg = h.mkarr(vals, (nv,))
    kw = dict(num=P['num'], nums=P['M']) if P.get('num') else {}
    if not P['grad']:
        kw['analytic_grad'] = False
    e.test(pid, arg, **kw)
    h.same(len(sims), 1, 'all candidates are evaluated for the same trajectories')
    h.eq(arg, h.mkarr(vals, (nv,)), 'the values asked for are left alone')
    S.untouched()
    rec = []

    class Plt(object):
        def plot(self, x, y, *a, **k):
            rec.append((x, y))

        def figure(self, *a, **k):
            return self

        def clf(self):
            del rec[:]
    for nm, j in (('plot_x0', 0), ('plot_xn', 1), ('plot_y', 2)):
        g = getattr(e, nm)
        h.same((len(g.params), len(g.vals)), (nv, nv), 'one value per candidate')
        h.eq(h.np.asarray(g.params), h.mkarr(vals, (nv,)), 'the table belongs to the values asked for')
        if P['grad']:
            h.same(len(g.diff), nv, 'one derivative per candidate')
        else:
            h.same(g.diff is None, True, 'no derivatives when none are asked for')
        for k in range(nv):
            S.par = k
            vs, gs = S.sums()
            h.eq(g.vals[k], vs[j], '%s: value of the term at the candidate' % nm)
            if P['grad']:
                h.eq(g.diff[k], gs[j][pid], '%s: derivative of the term at the candidate with respect to the tested parameter' % nm)
        del rec[:]
        plt, G.plt = G.plt, Plt()
        try:
            g.plot(7)
        finally:
            G.plt = plt
        h.same(len(rec) >= 1, True, 'the curve is drawn')
        h.eq(h.np.asarray(rec[0][0]), h.mkarr(vals, (nv,)), 'the curve is drawn over the values asked for')
        h.eq(h.np.asarray(rec[0][1]), g.vals, 'the curve is that of the term')
        h.same(P['grad'] or len(rec) == 1, True, 'no tangents without derivatives')
        for (x1, x2), (y1, y2) in rec[1:]:
            k = [k for k in range(nv) if bool((x1 + x2) - 2 * vals[k] == h.const(0)) or (not h.sym and abs(x1 + x2 - 2 * vals[k]) < 1e-9)]
            h.same(len(k), 1, 'a tangent is drawn at one of the values asked for')
            h.eq(y1 + y2, 2 * g.vals[k[0]], 'a tangent goes through the value of its candidate')
            h.eq(y2 - y1, g.diff[k[0]] * (x2 - x1), 'a tangent has the slope of the derivative of its candidate')
        if P['grad']:
            del rec[:]
            x, y, dx, d = h.real('x'), h.real('y'), h.real('dx'), h.real('d')
            h.assume(h.ne(dx, h.const(0)))
            plt, G.plt = G.plt, Plt()
            try:
                g.draw_gradient(x, y, dx, d)
            finally:
                G.plt = plt
            h.same(len(rec), 1, 'one line')
            (x1, x2), (y1, y2) = rec[0]
            h.eq((y2 - y1), d * (x2 - x1), 'the line has the slope of the derivative')
            h.eq((y - y1), d * (x - x1), 'the line goes through the value')


for kw in [dict(T=2, M=1, nth=1, pid=0, nv=2, grad=True), dict(T=3, M=2, nth=2, pid=1, nv=2, grad=True, num=7, miss=(1,)), dict(T=2, M=2, nth=3, pid=1, nv=3, grad=True, num=4, how=dict(F='sum', L='sum')), dict(T=2, M=2, nth=2, pid=0, nv=2, grad=False, num=5), dict(T=1, M=1, nth=2, pid=1, nv=1, grad=True)]:
    add('C47', label('table', kw), c47, kw, runs=3)
for kw in [dict(T=5, M=4, nth=4, pid=2, nv=5, grad=True, num=9, miss=(1, 3))]:
    add('C47', label('table', kw), c47, kw, runs=3, tier='thorough')
info('C47', 'up to 3 steps (thorough 5), 2 trajectories (4), 3 parameters (4), 3 values of the tested parameter (5); every state, input, measurement, term and derivative',
     ['the user model answers by arbitrary numbers for every candidate and the arguments it is asked for are checked', 'the trajectories are given by the harness instead of a simulation', 'plotting is recorded instead of drawn'])
