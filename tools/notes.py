"""what mkdesign.py cannot read off the code"""
ORACLE = {
 'C01': 'all weights and the offset symbolic; the count of every index must be floor or ceil of n w_i / sum(w), stated as two linear inequalities per index.',
 'C02': 'symbolic log-weights; the multiplicity bounds of C01, identity of the copied particles, returned ancestors, exact new weights, and a snapshot of the old set.',
 'C03': 'exact rational formula for the effective number; the set of offsets that select particle i must be an interval of length w_i/sum(w) (checked through the path conditions on the offset); order comparisons for the best particles.',
 'C04': 'one `forward` from a symbolic pre-state with an abstract model whose every density is a free positive symbol labelled by the particle, input, measurement and time it was asked for; ancestors, provenance and weights compared with the formula of the bootstrap filter.',
 'C05': 'the same step with symbolic likelihoods carrying constant offsets of +-1e6, with overflow modelled; max log-weight 0, offset bookkeeping identity, ratios unchanged by the offset.',
 'C06': 'as C04, with free first-stage weights: draw bounds in w*lambda, weight L/lambda of the particle\'s own ancestor.',
 'C07': 'as C04: weight times L F / Q with Q, F, L free symbols tagged by (particle, ancestor, time).',
 'C08': 'as C04: weight times F for the parent, data and history tagged; initial measurement uniform.',
 'C09': 'as C04 for each conditional filter: last particle is the conditioned state, ancestor drawn with the inverse-CDF condition on w*F.',
 'C10': 'deep snapshots of everything stored before the call compared with the state after it, for every path of every filter and smoother.',
 'C11': 'symbolic inputs and measurements fed through every pattern of calls; stored arrays compared element by element, arguments shown to the model checked.',
 'C12': 'whole simulations with an abstract model; estimates compared with weighted sums of the stored symbolic particles.',
 'C13': 'every ancestry table is a schedule choice; returned paths compared with following the table.',
 'C14': 'inverse-CDF condition on w_i F(i -> own future) for each trajectory, as polynomial inequalities over the free densities.',
 'C15': 'the acceptance condition u < F/bound and the set of unfinished trajectories are replayed by an oracle on the same symbolic random tape; the bound must dominate.',
 'C16': 'as C15 with the Metropolis ratio; the oracle replays the symbolic tape for every permutation and acceptance pattern.',
 'C17': 'acceptance decided by the exact Metropolis-Hastings ratio of free densities tagged with particle, ancestor, future and time, on the same tape.',
 'C18': 'the abstract model raises an obligation for every argument of every call it receives.',
 'C19': 'a Markov model under the default adapters; arguments and pairings checked, independence of copies by identity.',
 'C20': 'exact Gaussian log-density through determinant and adjugate of a symbolic positive definite matrix (Cholesky parametrisation).',
 'C21': 'joint Gaussian moments by the conditional Gaussian formula with independent inverse; full matrices symbolic.',
 'C22': 'the joint Gaussian of (z_t, z_t+1) with the smoothed marginal substituted.',
 'C23': 'both modules executed on the same symbols, results and side effects compared.',
 'C24': 'expectations written out from the joint second moments; derivatives by symbolic differentiation of the value.',
 'C25': 'f, g, Q, R as free (also per-particle) tables; density formulas of C20.',
 'C26': 'mean and covariance of the affine image of the normal draws (`h.law`), cross covariance between particles zero.',
 'C27': 'bound minus density shown non-negative by the solver for all states, zero at the mode; proposal law against its reported density.',
 'C28': 'Kalman recursion with the matrices of the right time; every subset of constant and varying matrices.',
 'C29': 'RTS recursion per trajectory; whole runs through the smoothers over every drawn path.',
 'C30': 'E[log p] written with second moments about the smoothed law; gradient by symbolic differentiation.',
 'C31': 'the joint Gaussian of (xi+, z+) given (xi, z-moments): conditioning on the drawn xi+ by the Gaussian formula, including Qxiz.',
 'C32': 'joint density through block matrices; domination through positive definiteness lemmas discharged separately.',
 'C33': 'conditional law of z given the future (h.law of the draw), RTS recursion with conditional dynamics.',
 'C34': 'integral over the linear states done by the Gaussian formula on the stacked joint covariance of the future.',
 'C35': 'as C30 for the joint (xi, z) model, with second moments of z only; affine dependence on the parameters, symbolic differentiation.',
 'C36': 'Kalman step per particle with matrices tagged by its own nonlinear state.',
 'C37': 'free symbols for each term; the sums compared, arguments checked.',
 'C38': 'recording stub of the simulation and maximisation, and real runs; order and arguments of the events.',
 'C39': 'reference pool of (trajectory, weight) under the recursion with free step sizes.',
 'C40': 'scipy.optimize.minimize replaced by a stub that evaluates objective and gradient at free candidate vectors.',
 'C41': 'piecewise convolution integral of two indicator functions, for every ordering of the breakpoints.',
 'C42': 'opaque arguments and answers compared by identity; counters against the lengths of the arguments.',
 'C43': 'complete runs with provenance tags on every particle.',
 'C45': 'the textbook algorithm on the matrices and functions of the model (joint Gaussians, conditioning, batch posterior), replayed on the same random numbers.',
 'C46': 'the run of a new simulator on the same symbolic random numbers.',
  'C49': 'the same run with the same numbers as floating-point arrays, on the same symbolic tape.',
 'C48': 'the same arrays before the call.',
 'C47': 'the averaged terms and derivatives of the arbitrary model at every candidate.',
 'C44': 'the two-stage run compared with the one-call run on the same symbolic tape, history arguments checked by identity.',
}
# summed wall time of the cases of one run (8 in parallel)
COST = {'C49': 'about 15 s of case time', 'C48': 'about 280 s of case time (75 s on 8 cores)', 'C45': 'about 260 s of case time', 'C46': 'about 220 s of case time', 'C47': 'about 3 s of case time', 'C01': 'about 9 s of case time', 'C02': 'about 10 s of case time', 'C03': 'about 15 s of case time', 'C04': 'about 10 s of case time', 'C05': 'about 26 s of case time', 'C06': 'about 10 s of case time', 'C07': 'about 7 s of case time', 'C08': 'about 9 s of case time', 'C09': 'about 30 s of case time', 'C10': 'about 54 s of case time', 'C11': 'about 10 s of case time', 'C12': 'about 24 s of case time', 'C13': 'about 27 s of case time', 'C14': 'about 20 s of case time', 'C15': 'about 77 s of case time', 'C16': 'about 50 s of case time', 'C17': 'about 30 s of case time', 'C18': 'about 41 s of case time', 'C19': 'about 3 s of case time', 'C20': 'about 7 s of case time', 'C21': 'about 23 s of case time', 'C22': 'about 3 s of case time', 'C23': 'about 3 s of case time', 'C24': 'about 20 s of case time', 'C25': 'about 14 s of case time', 'C26': 'about 12 s of case time', 'C27': 'about 11 s of case time', 'C28': 'about 17 s of case time', 'C29': 'about 40 s of case time', 'C30': 'about 23 s of case time', 'C31': 'about 71 s of case time', 'C32': 'about 160 s of case time', 'C33': 'about 22 s of case time', 'C34': 'about 134 s of case time', 'C35': 'about 92 s of case time', 'C36': 'about 52 s of case time', 'C37': 'about 6 s of case time', 'C38': 'about 15 s of case time', 'C39': 'about 82 s of case time', 'C40': 'about 7 s of case time', 'C41': 'about 12 s of case time', 'C42': 'about 17 s of case time', 'C43': 'about 28 s of case time', 'C44': 'about 60 s of case time'}
CAUGHT = {
 's31-measured-with-old-noise': 'yes, after allclose became the inequality it is instead of equality (missed at first)',
 's32-estimates-view': 'yes, after C12 writes into what is returned (missed at first)',
 's35-last-transition-grad': 'yes, after C37 keeps the arrays the model hands out (missed at first)',
 's43-resample-at-threshold': 'yes, after C04 judges the exact threshold (missed at first)',
 's02-mcmc-stale-density': 'yes, after more than one iteration per step was added to the quick tier (missed at first)',
 's60-shallow-seed': 'yes, after C02 uses a seed that holds other objects (missed at first)',
 's63-shift-by-filter-weight': 'yes, after C14 got particles of opposite magnitudes (missed at first)',
 's70-initial-factor-kept': 'yes, after C30 uses a model that had other parameter values before (missed at first)',
 's71-initial-factor-nlg': 'yes, after C26 writes new values into the arrays of the initial law (missed at first)',
 's72-many-at-once': 'yes, by the case with 70 vectors (every earlier case had at most three)',
 's74-ancestor-buffer': 'yes, at once',
 's73-compact-ancestors': 'yes, by the case with 140 particles (every earlier case had at most five)',
}
