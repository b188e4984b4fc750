"""Many particles for the built-in models and the numerical helpers: what a loop over particles does must not depend on how many there are."""
from engine.cases import add, bound
from harness import e_kalman as K, f_nlg as F, g_ltv as G, h_mlnlg as H, i_hier as I, j_marg as J, j_mlobj as O

N = 70
BOTH = ('pure', 'ext')
for impl in BOTH:
    add('C20', 'large-density', K.c20, dict(n=2, N=N, impl=impl), (impl,))
    add('C20', 'large-perparticle', K.c20_vec, dict(n=1, N=N, impl=impl), (impl,))
    add('C20', 'large-scalar', K.c20_scalar, dict(N=N, impl=impl), (impl,))
    add('C24', 'large-l2', K.c24_l2, dict(N=N, lxi=1, lz=1, impl=impl), (impl,))
    add('C24', 'large-grad', K.c24_grad, dict(N=N, lxi=1, lz=1, L=1, impl=impl), (impl,))
for kw in [dict(lxi=1, Q='const', f='table'), dict(lxi=2, Q='both', f='table')]:
    kw = dict(kw, N=N)
    add('C25', 'large-' + kw['Q'], F.c25, dict(kw, ly=1), BOTH)
    add('C26', 'large-noise-' + kw['Q'], F.c26_noise, kw)
    add('C27', 'large-proposal-' + kw['Q'], F.c27_proposal, dict(kw, M=N, k=1, lxi=1, fixed=True), runs=3)
add('C27', 'large-bound', F.c27_max, dict(N=20, lxi=1, Q='const', f='table'))
add('C26', 'large-initial', F.c26_init, dict(N=N, lxi=1, x0=True, P0='spd', Q='const'), BOTH)
add('C28', 'large', G.c28, dict(lz=1, ly=1, N=N, T=1), BOTH)
add('C29', 'large', G.c29, dict(lz=1, N=N, M=N, Mf=N, T=2, k=0, find='all', fixed=True), BOTH)
add('C30', 'large-value', G.c30_value, dict(lz=1, ly=1, N=N), BOTH)
add('C30', 'large-gradient', G.c30_grad, dict(lz=1, ly=1, N=N, L=1, dep='AfQChRzP'), BOTH)
for part in ((), H.ALLP if hasattr(H, 'ALLP') else ()):
    kw = dict(N=N, lxi=1, lz=1, ly=1, part=part, fixed=True)
    t = '-particle' if part else ''
    add('C31', 'large-step' + t, H.c31, kw, BOTH)
    add('C32', 'large-density' + t, H.c32, dict(kw, N=6), BOTH)
    add('C35', 'large-value' + t, O.c35_value, dict(kw, N=20), BOTH)
    add('C36', 'large-update' + t, I.c36, dict(kw, part=I.ALL if part else ()), BOTH)
    add('C36', 'large-measure' + t, I.c36_meas, dict(kw, part=I.ALL if part else ()), BOTH)
    add('C36', 'large-density' + t, I.c36_dens, dict(kw, N=6, part=I.ALL if part else ()), BOTH)
from harness import d_runs as D, l_paramest as P
add('C10', 'long-filter', D.c10_filter, dict(filter='PF', N=2, steps=40, T=50, meas=True, res=0, many=10 ** 9, few=()))
add('C11', 'long', D.c11, dict(steps=40, meas=True, N=2, missing=(4, 33), res=0, many=10 ** 9, few=()))
add('C11', 'long-preallocated', D.c11, dict(steps=40, meas=True, N=2, T=45, res=0, many=10 ** 9, few=()))
for filt in ('PF', 'APF', 'SIR'):
    add('C43', 'long-' + filt, D.c43, dict(filter=filt, N=2, steps=40, res=0, meas=True, many=10 ** 9, few=()))
    add('C43', 'large-' + filt, D.c43, dict(filter=filt, N=140, steps=2, res=0, meas=True, many=10 ** 9, few=()))
add('C12', 'long', D.c12, dict(N=2, M=1, D=2, L=40, res=0, meas=True, smoother='ancestor', many=10 ** 9, few=()), runs=4)
add('C19', 'long', D.c19, dict(N=2, T=70, k=66), runs=4)
for kw in [dict(T=40, M=2, D=1, nth=3, miss=(0, 17)), dict(T=2, M=70, D=2, nth=4)]:
    add('C37', 'long-%d' % kw['T'], P.c37, kw, runs=3)
add('C38', 'long-loop', P.c38, dict(iters=40, num_part=3, num_traj=2, cb=True), runs=3)
add('C39', 'long-loop', P.c39, dict(which='SAEM', iters=12, M=1), runs=3)
bound(('C01', 'C02', 'C03', 'C04', 'C06', 'C07', 'C08', 'C09'), 'one case each with 130 to 300 particles, all but at most a handful of weights and densities fixed rational numbers')
bound(('C13', 'C14', 'C15', 'C16', 'C17'), 'one case each with 130 particles and trajectories, and with 130 steps, weights and densities fixed so that at most one choice is open; '
      'a random permutation of more than 16 items is one fixed permutation')
bound(('C20', 'C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C36'), '70 particles (arbitrary values) in one case each, ancestors and futures one fixed table (C27 bound 20, C36 density 6)')
bound(('C32', 'C35'), '6 and 20 particles in one case each')
bound(('C20', 'C21', 'C22', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C33', 'C34', 'C35', 'C36'),
      'the same object used once before with other parameter values, replaced or (C28 to C30, C35) written into the same arrays')
bound(('C10', 'C11', 'C12', 'C43'), 'one case with 40 steps, likelihoods fixed rational numbers; C43 also 140 particles')
bound(('C19',), 'one case with 70 steps')
bound(('C37',), 'one case with 40 steps and one with 70 trajectories')
bound(('C38', 'C39'), 'one loop of 40 and 12 iterations')
