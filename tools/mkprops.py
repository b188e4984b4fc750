#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the definitions live here so that they stay in one format)."""
import json, os
F='pyparticleest/filter.py'; S='pyparticleest/smoother.py'; I='pyparticleest/interfaces.py'; SIM='pyparticleest/simulator.py'
NLG='pyparticleest/models/nlg.py'; LTV='pyparticleest/models/ltv.py'; RB='pyparticleest/models/rbpf.py'; ML='pyparticleest/models/mlnlg.py'; H='pyparticleest/models/hierarchial.py'
K='pyparticleest/utils/kalman.py'; CK='pyparticleest/utils/ckalman.pyx'; MC='pyparticleest/utils/mlnlg_compute.py'; CMC='pyparticleest/utils/cmlnlg_compute.pyx'
PDF='pyparticleest/utils/pdf.py'; INS='pyparticleest/utils/intrument.py'; PE='pyparticleest/paramest/paramest.py'; PI='pyparticleest/paramest/interfaces.py'
GT='pyparticleest/paramest/gradienttest.py'
NOTEST="The five stable tests only touch initial values, one measurement and one update of one NLG and one LTV model; nothing reaches this code"
P=[]
def p(i,title,st,over,text,why,files,mech):
    assert len(title)<=80,title
    P.append(dict(id=i,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))])))
p('C01','Systematic sampling draws every index a proportional number of times',
 'For any non-negative weights that are not all zero (normalised or not) and any random offset strictly between 0 and 1, drawing n indices returns n valid indices, each index i occurring either floor or ceil of n*w_i/sum(w) times. An index with zero weight is never drawn, and the caller\'s weights are left unchanged.',
 ['inputs'],'all weight vectors and all offsets, for every bounded number of weights and draws',NOTEST+'; the proportion must hold for every offset and weight vector.',[F],'inverse of the normalised cumulative sum at equally spaced points with one common random offset')
p('C02','Resampling keeps exactly the drawn particles and resets the weights',
 'Resampling a weighted particle set to N particles replaces the particles by copies of the drawn ones, in the order of the returned ancestor indices, gives every particle the weight 1/N, and draws in proportion to the old weights, whatever common offset the log-weights carry. The particle count is updated, zero-weight particles do not survive, and the particle set the filter stored before is not modified. A new particle set holds its own copy of the given particles (or seed) and weights, uniform ones if none are given.',
 ['inputs'],'all log-weights (any common shift, including minus infinity for some), all offsets, old and new sizes',NOTEST+'.',[F],'ParticleApproximation.resample: shift by max, exponentiate, systematic sample, copy_ind')
p('C03','Effective number, single draw and best particles of a weighted set',
 'The effective number of particles equals (sum w)^2 / sum w^2 of the weights whatever their common scale, lies between 1 and N; a single draw returns particle i with exactly its normalised weight as the measure of the random offset; the n best particles are the n with the largest weights.',
 ['inputs'],'all log-weight vectors, any common shift, any n up to the number of particles',NOTEST+'.',[F],'ParticleApproximation.calc_Neff / sample / find_best_particles')
p('C04','One particle filter step: right data, ancestry and weights',
 'One step of the bootstrap particle filter resamples exactly when the effective number of particles is below the threshold times N (never when the threshold is 0), propagates each particle from the ancestor it reports, with the input and time of the old index and process noise drawn for that ancestor, and multiplies each normalised weight by the likelihood of the measurement at the new index and time. The reported ancestors, resampling flag and particles describe the same step; without resampling, particle i descends from particle i with its old weight.',
 ['inputs','histories'],'every pre-state (particles, weights), likelihood, offset and threshold; Markov and non-Markov models',NOTEST+'; which particles are drawn depends on the weights and offset.',[F,I],'ParticleFilter.forward/update/measure')
p('C05','Filter weights survive very unlikely measurements and keep their likelihood',
 'After every filter step or measurement the largest log-weight is 0, the normalised weights depend only on likelihood ratios, so adding the same constant to all log-likelihoods changes nothing, and normalised weights are finite however small the likelihoods are. The offset recorded with a step plus its log-weights equals the previous log-weights plus the new log-likelihoods.',
 ['inputs','histories'],'every likelihood vector with any common offset, any previous weights',NOTEST+'; underflow only appears for extreme likelihoods.',[F],'w_offset/max subtraction in measure and the forward methods of the filters')
p('C06','Auxiliary particle filter: first stage weights are used and undone',
 'The auxiliary particle filter draws ancestors in proportion to weight times first-stage weight, evaluated for the measurement at the next index, and after propagation weights each particle by its likelihood divided by the first-stage weight of its own ancestor. When no resampling takes place, or no measurement is available, the result agrees with the plain particle filter.',
 ['inputs','histories'],'every pre-state, likelihood, first stage weight, offset and threshold',NOTEST+'.',[F],'AuxiliaryParticleFilter.forward')
p('C07','Sequential importance resampling weights by likelihood times prior over q',
 'One step of the SIR filter proposes a successor for each (resampled) particle from the user\'s proposal given the new measurement, and multiplies its weight by p(y|x_new) p(x_new|x_old) / q(x_new|x_old,y), each factor evaluated for the matching pair of particles and at the matching time. The stored filter history is not changed by the step.',
 ['inputs','histories'],'every pre-state, density value, offset and threshold',NOTEST+'.',[F],'SIR.forward')
p('C08','Filter proposing from the measurement weights by the transition density',
 'The filter that proposes particles from the measurement weights each proposed particle by its (resampled) parent\'s weight times the transition density from that parent, using the parent\'s own history, and proposes from the measurement and time of the new step. Its initial measurement gives uniformly weighted particles proposed from the first measurement.',
 ['inputs','histories'],'every pre-state, transition density value, offset and threshold',NOTEST+'.',[F],'FFPropY.forward/measure')
p('C09','Conditional filters keep the conditioned trajectory and sample its ancestor',
 'Every conditional filter keeps the conditioned trajectory\'s state as the last particle at every time, draws the other particles from the weighted previous particles, and (for ancestor sampling) draws the last particle\'s ancestor with probability proportional to weight times transition density into the conditioned state; without ancestor sampling that ancestor is the previous conditioned particle. Weights after the step are the ones of the underlying filter for exactly these particles.',
 ['inputs','histories'],'every pre-state, conditioned trajectory, density values and offsets, for all four conditional filters',NOTEST+'; these filters cannot even be run by the existing tests.',[F],'CPF/CPFAS/CSIRAS/CPFYAS create_initial_estimate/forward/measure')
p('C10','Filtering never rewrites the past and smoothing never alters the filter',
 'Advancing any filter leaves the stored particles, weights and ancestors of all earlier steps unchanged, and running any smoother leaves every stored filter step (particles, weights, ancestors), inputs, measurements and time stamps unchanged. The user\'s own input arrays are not modified either.',
 ['histories','configurations'],'every filter, smoother and history within the bounds',NOTEST+'.',[F,S],'copies made by ParticleApproximation, copy_ind, SmoothTrajectory')
p('C11','The trajectory keeps inputs, measurements and times aligned',
 'Feeding a trajectory step by step stores u_k, y_k and time k at index k (y_0 present only if a first measurement was given), presents exactly the data up to the current index to the model, and grows by one step per call, whether the storage is preallocated or grown. A first measurement is applied to the initial particles before any time update, and ancestors of the initial particles are themselves.',
 ['histories','configurations'],'all sequences of measure/forward calls within the bound, with preallocated or growing storage, with missing measurements',NOTEST+'.',[F],'ParticleTrajectory.forward/measure, uvec/yvec/tvec resizing')
p('C12','Simulator runs every measurement once and returns correct estimates',
 'Simulating pairs input u_k with the transition out of step k and every measurement with the right step for both conventions (first measurement before or after the first update), counts resamplings, and passes the chosen filter, smoother, options and threshold on. Filtered estimates return each step\'s particles with normalised weights, means are the weighted (filter) or plain (smoother) averages per time and dimension; changing what was returned does not change what is stored.',
 ['inputs','configurations'],'all weights and particles, data lengths, particle counts, trajectory counts and dimensions within the bounds',NOTEST+'.',[SIM],'Simulator.simulate, get_filtered_estimates/mean, get_smoothed_estimates/mean')
p('C13','Ancestor smoother returns true ancestral paths of the weighted end particles',
 'The ancestor smoother picks end particles in proportion to their final weights and returns, for each, the particles on its recorded ancestral line, one per time step in time order. Extra per-step smoothing and post-processing hooks of the model see this path and its future.',
 ['inputs','histories'],'every ancestry table, weights, offset, number of particles/trajectories/steps in the bound',NOTEST+'.',[S],'perform_ancestors_int, calculate_ancestors')
p('C14','Backward simulation draws each state with filter weight times transition',
 'Full backward simulation draws the state of every trajectory at each time among that time\'s filter particles with probability proportional to filter weight times the density of the trajectory\'s own already drawn future, independently of common offsets, starting from the end weights. Impossible transitions are never chosen and each trajectory\'s states stay in one column.',
 ['inputs','histories'],'all weights, transition densities (including zero), offsets; N, M, T within the bound',NOTEST+'.',[S],'SmoothTrajectory.perform_bsi, bsi_full')
p('C15','Rejection sampling smoothers draw from the backward kernel',
 'The rejection-sampling smoothers accept a candidate drawn from the filter weights exactly when a uniform number is below its transition density (into that trajectory\'s own future) divided by a bound that dominates all particles at that time, re-try only unfinished trajectories, and hand the remaining ones to exact backward simulation after the configured number of tries or when the adaptive stopping rule says so. Every trajectory gets a valid state from the distribution of exact backward simulation.',
 ['inputs','histories'],'all weights, densities, uniform numbers, permutations; bounded N, M, retries',NOTEST+'.',[S,F],'bsi_rs, bsi_rsas, perform_smoothing maxpdf table')
p('C16','MCMC backward simulation accepts with the Metropolis ratio',
 'The MCMC backward simulator starts from the forward ancestor of the trajectory, proposes from the filter weights, and accepts exactly when a uniform number is below the ratio of transition densities into the trajectory\'s own future; after the configured number of iterations the current particle is used, and its own forward ancestor starts the next time step.',
 ['inputs','histories'],'all weights, densities, uniforms, permutations; bounded N, M, T, iterations',NOTEST+'.',[S],'bsi_mcmc, perform_bsi')
p('C17','MH smoothers accept with the exact Metropolis-Hastings ratio',
 'Each move of the Metropolis-Hastings smoothers (MHIPS, reduced MHIPS and MHBP) accepts a proposed state exactly when a uniform number is below p(x\'|past\') p(y|x\') p(future|x\') q(x|past) / (p(x|past) p(y|x) p(future|x) q(x\'|past\')), with the initial density in place of p(x|past) at the first step and without the measurement or future terms where there is none. Rejected trajectories keep their state and ancestor, accepted ones take both proposed values. MHBP draws its candidate ancestors from the filter weights and deals them out at random among the trajectories, so every trajectory can be offered every particle.',
 ['inputs','histories'],'all density values and uniforms, any ancestry, all time positions, with and without measurement',NOTEST+'.',[S],'mc_step, perform_mhips_pass, perform_mhbp')
p('C18','Smoothers hand models the data belonging to the step they ask about',
 'Whenever a smoother evaluates or samples the model for step k, it passes inputs, measurements and times indexed so that step k\'s data is found at k, the filter history strictly before k, ancestors that index into that history, and the already smoothed future from k+1, for every method. The number of time steps and trajectories returned matches the request.',
 ['histories','configurations'],'all smoothing methods, history lengths, trajectory counts in the bound',NOTEST+'.',[S,I],'arguments of sample_smooth/logp_xnext_full/measure_full/propose_smooth calls')
p('C19','Default interface adapters forward the current step of a Markov model',
 'For models implementing only the simple Markov methods, the trajectory-level methods evaluate them on the particles selected by the given indices, with the input, measurement and time of the step they are asked about, pairing each particle with the selected future particle. Copying and default smoothing return independent copies of the selected particles, and default post-processing keeps the trajectories.',
 ['inputs'],'all index selections, time positions and data',NOTEST+'.',[I],'ParticleFiltering, FFBSi, FFBSiRS, SampleProposer adapters')
p('C20','Gaussian log-density helpers equal the multivariate normal log-density',
 'Every Gaussian log-density helper (full covariance, Cholesky factor, one covariance per error, vectorised, scalar) returns log N(err; 0, S) exactly, including the dimension dependent constant, for any error and any positive definite covariance. The inputs are not modified.',
 ['inputs','configurations'],'all errors and positive definite covariances of dimension up to the bound; both implementations',NOTEST+' except one scalar value.',[K,CK],'lognormpdf, lognormpdf_cho, lognormpdf_cho_vec, lognormpdf_vec, lognormpdf_scalar')
p('C21','Kalman predict and measure compute the exact Gaussian posterior',
 'Prediction and measurement update return the mean and covariance of the exact Gaussian predictive and posterior for z+ = A z + f + v, y = C z + h + e, and the returned log-likelihood is the exact log-density of the innovation, with C or h absent as well. The scalar variant agrees with the general one, and inputs other than the updated estimate are left alone.',
 ['inputs','configurations'],'all matrices with positive definite covariances, up to the dimension bound',NOTEST+' except one scalar update.',[K,CK],'KalmanFilter.predict*/measure*')
p('C22','Rauch-Tung-Striebel step gives the exact smoothed moments',
 'The backward smoothing step returns exactly the mean, covariance and lag-one cross covariance of the joint Gaussian smoothing distribution given the smoothed next state, for any dynamics.',
 ['inputs','configurations'],'all matrices with positive definite covariances up to the dimension bound',NOTEST+'.',[K,CK],'KalmanSmoother.smooth')
p('C23','Compiled and pure Python Kalman code agree',
 'The compiled extension and the pure Python fallback of the Kalman utilities return the same values, update the same arguments and accept the same optional arguments.',
 ['inputs','configurations'],'all inputs up to the dimension bound',NOTEST+' in both variants with non-trivial inputs.',[K,CK],'ckalman.pyx vs kalman.py')
p('C24','Quadratic statistics helpers equal their expectations and derivatives',
 'The mixed linear/nonlinear helpers return the exact prediction error, the expected outer product of the prediction error under the smoothed joint of current and next linear state, its derivatives with respect to parameters of the dynamics, and the derivative of log det(A) + tr(A^-1 B); compiled and pure variants agree and accept the same arguments.',
 ['inputs','configurations'],'all matrices, any split of dimensions, several particles and parameters in the bound; both variants',NOTEST+'.',[MC,CMC],'compute_logprod_derivative, compute_l2*, compute_pred_err')
p('C25','Nonlinear Gaussian model: transition, likelihood and first-stage densities',
 'For the additive-noise Gaussian model the next state is f(x,u,t) plus the sampled noise, the transition log-density is log N(x+; f, Q) and the likelihood log N(y; g, R), with constant or state dependent f, g, Q and R, of any dimension; the first-stage weight is the likelihood of the noise-free prediction at the next time, without moving the particle.',
 ['inputs','configurations'],'all particles, data, f/g values and covariances of dimension up to the bound; constant and per-particle',NOTEST+' beyond identity covariance, single dimension.',[NLG],'NonlinearGaussian.update/measure/logp_xnext/eval_1st_stage_weights')
p('C26','Nonlinear Gaussian model samples noise and initial states as declared',
 'Process noise has mean zero and exactly the declared covariance (constant or per particle) and is independent between particles; initial states have exactly mean x0 and covariance P0, are deterministic when P0 is zero, and the initial log-density is log N(x; x0, P0).',
 ['inputs','configurations'],'all covariances and means up to the dimension bound (first two moments of the sampled law as linear image of standard normals)',NOTEST+'; a sample-based test cannot pin a covariance.',[NLG],'sample_process_noise, create_initial_estimate, eval_logp_x0')
p('C27','Transition bound dominates every transition and proposals match densities',
 'The bound used by rejection sampling is at least the transition log-density from every particle to any state, and is attained; the smoothing proposal draws from the prior dynamics of the previous step and its reported log-density is the density of that draw.',
 ['inputs','configurations'],'all particles, next states and covariances up to the bound',NOTEST+'.',[NLG,I],'logp_xnext_max, propose_smooth, logp_proposal')
p('C28','Linear time-varying model filters as the exact Kalman filter',
 'For a linear time-varying Gaussian model every particle carries the exact Kalman mean and covariance: update and measure use the matrices of the current time and measurement, weights are the exact innovation log-likelihoods, and constant matrices are used wherever the model returns none. The state packing round-trips.',
 ['inputs','histories','configurations'],'all matrices, means, covariances and data up to the dimension bound; constant and time-varying, with and without h',NOTEST+' beyond one scalar step.',[LTV],'LTV.update/measure/set_states/get_states/create_initial_estimate')
p('C29','Linear time-varying model smooths as the exact RTS smoother',
 'Smoothing a linear time-varying model returns at every step and for every trajectory the exact Rauch-Tung-Striebel mean, covariance and cross covariance, using the dynamics of the step being smoothed and the matching future trajectory.',
 ['inputs','histories'],'all time-varying matrices and data up to the bound on dimension and length',NOTEST+'.',[LTV],'LTV.sample_smooth')
p('C30','LTV objective equals the expected complete-data log-likelihood, gradient too',
 'For the linear time-varying model the smoothed objective terms are the exact expectations of the log-densities of initial state, transitions and measurements under the smoothed moments, and each returned gradient is the derivative of the returned value with respect to the parameters.',
 ['inputs','configurations'],'all moments and matrices (affine in the parameters) up to the bound',NOTEST+'.',[LTV],'eval_logp_x0/xnext/y and their val_grad versions')
p('C31','Mixed linear/nonlinear model: filter step is the exact conditional Kalman step',
 'For the mixed linear/nonlinear Gaussian model, nonlinear noise is drawn with the exact predictive covariance, the linear state is updated by conditioning on the drawn nonlinear transition (including noise correlation between the parts) and predicted with the conditional dynamics, and the measurement weight is the exact marginal likelihood with the linear part updated accordingly.',
 ['inputs','configurations'],'all matrices and moments with positive definite covariances up to the dimension bound, with cross covariance',NOTEST+'.',[ML,RB],'MixedNLGaussian.sample_process_noise/update/meas_xi_next/cond_predict/measure')
p('C32','Mixed linear/nonlinear transition density is the exact marginal, bounded',
 'The transition density of the mixed model equals the exact Gaussian density of next nonlinear and sampled linear state given the current particle\'s marginal, the single-step density marginalises the next linear state, and the reported maximum dominates them.',
 ['inputs','configurations'],'all matrices and moments up to the dimension bound',NOTEST+'.',[ML],'logp_xnext, logp_xnext_singlestep, logp_xnext_max')
p('C33','Mixed model smoothing samples and re-smooths the linear states exactly',
 'Backward simulation of the mixed model draws the linear state from its exact conditional given the drawn future, and the post-processing replaces it by the exact RTS means and covariances conditional on the nonlinear trajectory.',
 ['inputs','histories'],'all matrices and moments up to the dimension bound, histories of bounded length',NOTEST+'.',[ML],'sample_smooth, post_smoothing')
p('C34','Marginalised mixed model weighs the future by the exact backward statistics',
 'For the marginalised mixed model, the density of the future trajectory and measurements given a particle, computed from the stored backward information statistics, equals the exact Gaussian integral over the linear states up to a factor common to all particles, for present and missing measurements.',
 ['inputs','histories'],'all matrices and moments up to the dimension bound, bounded future length',NOTEST+'.',[ML],'MixedNLGaussianMarginalized sample_smooth / logp_xnext_full')
p('C35','Mixed model objective equals the expected log-likelihood, gradient too',
 'For the mixed model the objective terms are, up to an additive constant depending on the dimensions only, exact expectations under the smoothed moments given each trajectory, and every returned gradient is the derivative of the returned value with respect to the parameters.',
 ['inputs','configurations'],'all moments and matrices (affine in the parameters) up to the bound',NOTEST+'.',[ML,PI],'MixedNLGaussian eval_logp_* and val_grad')
p('C36','Hierarchical model updates the linear part with the sampled nonlinear part',
 'For hierarchical models, each particle\'s linear state is predicted and corrected by the exact Kalman step with the matrices given by its own nonlinear state, and its weight is the nonlinear likelihood times the exact linear innovation likelihood; smoothing keeps each particle\'s own linear statistics.',
 ['inputs','configurations'],'all matrices and moments up to the dimension bound, several particles',NOTEST+'.',[H,RB],'HierarchicalBase update/measure/sample_smooth/logp_xnext')
p('C37','Trajectory objectives sum every step once with that step\'s data',
 'The complete-data log-likelihood of smoothed trajectories sums, averaged over trajectories, the initial term, the transition terms for every consecutive pair with the input and time of the earlier step, and the measurement terms of every step that has a measurement, each with its own data; values and gradients agree with the per-step methods; trajectories and the arrays the model hands out are left alone.',
 ['inputs','histories'],'all per-step values, lengths, trajectory counts, missing measurements',NOTEST+'.',[PI],'eval_logp_xnext_fulltraj, eval_logp_y_fulltraj and val_grad versions')
p('C38','EM loop maximises from the newest smoothing and stops correctly',
 'The parameter estimation loop sets the current parameters before simulating, smooths with them, maximises starting from them on the resulting trajectories, uses the scheduled particle and trajectory counts and the chosen filter, smoother and options, stops at the iteration limit, reports every new estimate to the callbacks and returns the parameters of the last iteration. Simulator and model base classes keep their own copy of the newest parameters.',
 ['histories','configurations'],'all sequences of parameter values, schedules and options in the bound',NOTEST+'.',[PE],'ParamEstimation.maximize')
p('C39','Stochastic-approximation EM weights follow the recursion and sum to one',
 'In the stochastic-approximation variants, after iteration k the stored trajectories carry weights formed by scaling all old ones by 1-alpha_k and giving the new ones alpha_k split by their own weights; they sum to one, discarding removes a trajectory together with its weight, and maximisation sees matching trajectories and weights.',
 ['histories','configurations'],'all step size sequences in (0,1] with the first equal to one, bounded iterations and particles',NOTEST+'.',[PE],'ParamEstimationSAEM, ParamEstimationPSAEM')
p('C40','Numeric maximisation optimises minus the complete-data objective',
 'Numerical maximisation minimises exactly minus the sum of averaged initial, transition and measurement terms of the candidate parameters, with the exact gradient when analytic gradients are used, starts from the current parameters within the given bounds, and returns the optimum found.',
 ['inputs','configurations'],'all objective values and parameter vectors in the bound',NOTEST+'.',[PI,PE],'ParamEstBaseNumeric.maximize, ParamEstBaseNumericGrad.maximize')
p('C41','Density of the sum of two uniforms is the exact convolution',
 'The density object for the sum of two independent uniform variables returns the exact convolution density at every point, whatever the order of the limits or of the two variables (and so integrates to one).',
 ['inputs'],'all limits with non-degenerate intervals and all evaluation points',NOTEST+'.',[PDF],'unifsum')
p('C42','Instrumented models behave exactly like the model they wrap',
 'Wrapping a model for instrumentation changes neither results nor arguments of any model method, counts every call in the counter of its kind by the number of particles evaluated, and the printed statistics show these counts. Methods and hooks the wrapped model has, or lacks, are had or lacked by the wrapped one.',
 ['inputs','configurations'],'all methods, arguments and numbers of particles',NOTEST+'.',[INS],'Instrumenter')
p('C43','A whole run starts uniform and never mixes up particles, weights and ancestry',
 'Over a complete run of any filter from its first step, initial particles are uniformly weighted draws from the model\'s initial distribution, every stored step has as many particles, weights and ancestors as there are particles, and every particle\'s stored value was produced from the particle its ancestor index names.',
 ['histories','configurations'],'all filters, thresholds, offsets and likelihoods for bounded lengths and particle counts',NOTEST+'.',[F,SIM],'ParticleTrajectory with every filter class')
p('C44','Separate measurements condition exactly the newest step on its own data',
 'Measuring a trajectory at any time multiplies the newest step\'s weights by the likelihoods of its particles given that step\'s measurement and time and the history strictly before it, and changes neither particles, ancestry nor earlier steps; a time update without measurement followed by the measurement equals one step with it in the bootstrap filter. Time and measurement updates of a filter asked not to work in place leave the given particle approximation intact and return what working in place gives.',
 ['inputs','histories'],'all likelihoods, weights, offsets and thresholds; orders of time updates and measurements of bounded length; Markov and non-Markov models',NOTEST+'.',[F],'ParticleTrajectory.measure, ParticleFilter.update/measure, SIR.measure')
p('C45','A run with a built-in model is the particle filter and smoother of that model',
 'For the Gaussian model classes the library ships, a complete run of the simulator, from the data to the smoothed trajectories, is the algorithm it is named after applied to the model the user wrote down: every particle carries the exact state (and, for Rao-Blackwellised models, the exact conditional moments) given its own history, weights are the likelihoods times the carried weights, resampling and smoothing draw with the probabilities these densities define, and the smoothed linear moments are those given the whole nonlinear trajectory and every measurement.',
 ['inputs','histories','configurations'],'all data, model functions, noise and random numbers; bounded numbers of steps, particles, trajectories and state dimensions',NOTEST+'.',[SIM,F,S,NLG,RB,ML,H],'Simulator.simulate with NonlinearGaussianInitialGaussian, MixedNLGaussianSampledInitialGaussian, MixedNLGaussianMarginalizedInitialGaussian and HierarchicalBase')
p('C46','Running again gives what a new simulator gives',
 'A simulator can be used for any number of runs: after a change of parameters another run gives exactly what a newly created simulator and model with those parameters give for the same random numbers, whatever ran before; results handed out earlier, the inputs, measurements, parameters and options of the user and a trajectory conditioned on are left unchanged.',
 ['histories','inputs','configurations'],'all data, parameters and random numbers; all built-in model classes, filters and smoothers in the bound; two runs',NOTEST+'.',[SIM,F,S,NLG,LTV,RB,ML,H],'Simulator.simulate, ParticleTrajectory, SmoothTrajectory, set_dynamics of the models')
p('C47','The gradient test tabulates value and derivative of every candidate',
 'For one set of smoothed trajectories the gradient test evaluates the initial, transition and measurement terms, averaged over the trajectories, at parameters that differ from the given ones only in the tested parameter, and tabulates for every candidate its own value and its own derivative with respect to the tested parameter; the curve it draws is that table and the lines are tangents at a candidate with that candidate\'s derivative.',
 ['inputs','configurations'],'every state, measurement, candidate value, term and derivative; bounded numbers of steps, trajectories, parameters and candidates; terms per trajectory or already summed',NOTEST+'.',[GT,PI],'GradientTest.test, GradPlot.plot, draw_gradient')
p('C48','What the user and the model hand over is only read',
 'The built-in models never write into what they are handed: matrices and initial states given to a constructor, arrays and lists returned by the system functions of the user\'s model (get_..., calc_...), inputs, measurements and noise passed to an update, and the states a density, gradient, bound, proposal, first-stage weight or noise sampler is asked about keep their values, so a model may hand out stored arrays and a filter history can be queried any number of times.',
 ['inputs','histories','configurations'],'every value; all built-in model classes; filtering, smoothing and objective evaluation; constant and per-particle matrices',NOTEST+'.',[NLG,LTV,RB,ML,H],'all density, update, measure, smoothing and objective methods of the built-in models')
p('C49','Whole numbers given as integers mean the same as floating-point numbers',
 'Every quantity a user hands over as numbers (initial states, covariances, system matrices and their gradients, measurements, parameters, log densities and weights computed by the user\'s model) may be given as integers or as floating-point numbers of the same value: filtering, smoothing, densities, objectives, gradients and gradient tests give the same results, never truncated and never refused.',
 ['inputs','configurations'],'every continuous quantity; built-in and user-written models; all filters, smoothers and objective terms',NOTEST+'; they use floating-point arrays only.',[NLG,LTV,ML,H,'pyparticleest/utils/kalman.py','pyparticleest/paramest/gradienttest.py'],'create_initial_estimate, measurement_diff, measure and density methods, gradient test')
here=os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here,'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
