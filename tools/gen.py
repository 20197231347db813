#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (one place to keep them in step)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "orocos_bfl/src/"
P = []


def prop(id, title, statement, over, q, why, files, mech, observe, technique, note, state=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech],
                                observe_at=observe, hook_needed=None, **({"state": state} if state else {}))), technique, note))


RM = "runtime monitoring of the real library (ASan+UBSan build, both matrix back ends): "
EXP = "Exploration of seeded random cases, each replayable by (seed, case number); trusts the long-double reference in harness/ and the stated tolerances. "

prop("C01", "Kalman filters give the exact posterior of linear-Gaussian systems",
     "For a linear system model and a linear measurement model with additive Gaussian noise, every accepted sequence of updates (system only, measurement only, or both; with or without inputs and sensor parameters; changing models, matrices, noise and dimensions of the measurement between updates) leaves in the (extended, iterated extended) Kalman filter exactly the mean and covariance prescribed by the Kalman equations, up to rounding. The covariance stays symmetric and positive semi-definite, Reset restarts from the given prior, and the prior and the models handed over by the caller are not changed.",
     ["inputs", "histories", "configurations"],
     "All linear models with additive Gaussian noise (any state, input, measurement and sensor-parameter dimension), all finite histories of updates and resets, filters KF/EKF/IEKF, both matrix back ends.",
     "The tests run one fixed one-dimensional or mobile-robot model for a few steps and compare against recorded numbers.",
     ["filter/kalmanfilter.cpp", "filter/extendedkalmanfilter.cpp", "filter/iteratedextendedkalmanfilter.cpp", "filter/filter.cpp", "model/linearanalyticsystemmodel_gaussianuncertainty.cpp", "model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp", "pdf/linearanalyticconditionalgaussian.cpp"],
     [("Kalman gain and covariance update", "filter/kalmanfilter.cpp CalculateMeasUpdate/CalculateSysUpdate"), ("per-dimension work matrices", "filter/kalmanfilter.cpp AllocateMeasModel"), ("update dispatch", "filter/filter.cpp Update overloads")],
     ["posterior expected value and covariance after every update"],
     RM + "online comparison of every posterior with an independent long-double Kalman filter",
     EXP + "The reference follows the library's own previous posterior, so rounding does not accumulate.")

prop("C02", "Extended and iterated Kalman filters linearise nonlinear models correctly",
     "For any differentiable system and measurement model with Gaussian uncertainty, one update of the extended Kalman filter equals the Kalman update with the model's function value, Jacobian and covariance evaluated at the current estimate, with the input and sensor parameter of this call. The iterated filter relinearises the measurement at its latest estimate in each of its configured iterations, starting from the prediction, and stops early only when its innovation check says so.",
     ["inputs", "histories", "configurations"],
     "All differentiable models (value, Jacobian and covariance supplied by the user), all inputs, sensor parameters, measurements, numbers of iterations, innovation checks and histories of updates.",
     "The tests use one nonlinear robot model and recorded results; iteration counts, innovation checks and sensor parameters are hardly varied.",
     ["filter/extendedkalmanfilter.cpp", "filter/iteratedextendedkalmanfilter.cpp", "filter/innovationCheck.cpp", "model/analyticsystemmodel_gaussianuncertainty.cpp", "model/analyticmeasurementmodel_gaussianuncertainty.cpp"],
     [("linearisation at the prior estimate", "filter/extendedkalmanfilter.cpp SysUpdate/MeasUpdate"), ("iteration", "filter/iteratedextendedkalmanfilter.cpp MeasUpdate"), ("innovation check", "filter/innovationCheck.cpp check")],
     ["posterior after every update"],
     RM + "online comparison with an independent long-double (iterated) extended Kalman filter",
     EXP)

prop("C03", "The square-root iterated filter is algebraically an iterated Kalman filter",
     "The square-root iterated extended Kalman filter with a linear system model and a (possibly implicit) linear measurement model gives, after every update, the same mean and covariance as the ordinary equations: prediction A x + B u with A P A' + Q, and correction with the linearised innovation z - f and its covariance D R D'. The square-root factor it exposes always squares to the covariance it exposes, also after Reset and after setting the prior and the square root by hand.",
     ["inputs", "histories", "configurations"],
     "All linear models, all measurement covariances and implicit-measurement matrices D (identity with diagonal noise, or general), all histories of updates.",
     "No stable test executes this filter.",
     ["filter/SRiteratedextendedkalmanfilter.cpp", "model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.cpp"],
     [("square-root update", "filter/SRiteratedextendedkalmanfilter.cpp MeasUpdate"), ("square-root prediction", "filter/SRiteratedextendedkalmanfilter.cpp SysUpdate"), ("square-root state", "filter/SRiteratedextendedkalmanfilter.cpp SRCovarianceGet")],
     ["posterior mean, covariance, square root"],
     RM + "online comparison with an independent long-double filter, square-root consistency monitor",
     EXP + "With D the identity only diagonal measurement noise is exercised: the filter documents/implements an element-wise shortcut there.")

prop("C04", "The histogram filter is exact Bayes over a finite state space",
     "After every update of the histogram filter the probability of each state is the one given by Bayes' rule: a system update multiplies by the transition table (with the given input), a measurement update by the likelihood of the measurement in each state (with the given sensor parameter), then normalises. The probabilities are never negative and sum to one, a measurement that is impossible in every state is reported as a failed update, Reset restarts from the new prior, and the caller's prior and models stay as they were.",
     ["inputs", "histories", "configurations"],
     "All numbers of states, transition tables (including zeros and identity), inputs, measurement models and histories of updates and resets.",
     "Tests run one door-sensing example with a fixed sequence.",
     ["filter/histogramfilter.cpp", "model/discretesystemmodel.cpp", "pdf/discretepdf.cpp", "pdf/discreteconditionalpdf.cpp"],
     [("system update", "filter/histogramfilter.cpp SysUpdate"), ("measurement update", "filter/histogramfilter.cpp MeasUpdate"), ("normalisation", "pdf/discretepdf.cpp ProbabilitiesSet")],
     ["posterior probabilities after every update", "return value of Update"],
     RM + "online comparison with exact long-double Bayes recursion over random transition tables and likelihoods", EXP)

prop("C05", "Discrete distributions stay normalised and return what was set",
     "Whatever sequence of whole-table or single-value assignments a discrete distribution goes through, all its probabilities are non-negative and sum to one, its cumulative distribution runs monotonically from zero to one and agrees with the probabilities, and the most probable state it reports has the largest probability. Setting one probability gives exactly that value and scales the others proportionally; setting a table normalises it.",
     ["inputs", "histories"],
     "All numbers of states and all finite sequences of assignments, including zeros, ones and repeated assignments, copies and clones.",
     "Tests set a handful of tables of fixed size once.",
     ["pdf/discretepdf.cpp"],
     [("normalisation", "pdf/discretepdf.cpp NormalizeProbs"), ("cumulative distribution", "pdf/discretepdf.cpp CumPDFUpdate"), ("single assignment", "pdf/discretepdf.cpp ProbabilitySet")],
     ["probabilities, cumulative distribution, most probable state after every assignment"],
     RM + "online model-based monitor of the table after each operation", EXP)

prop("C06", "Sampling a discrete, sample-based or mixture distribution follows its weights",
     "Samples drawn from a discrete distribution, a discrete conditional distribution, a sample-based distribution or a mixture, by every supported sampling method, singly or in lists of any requested length, take each value with exactly its probability. No random draw, however extreme, yields a value outside the support or of zero probability, and the number of samples is the number requested.",
     ["inputs", "schedules", "configurations"],
     "All distributions (including zero, tiny and dominating weights), all sampling methods, all sample counts, all values of the underlying uniform generator including its extremes.",
     "Tests draw a few samples from smooth distributions with the default generator and look at counts only loosely; extreme draws never occur.",
     ["pdf/discretepdf.cpp", "pdf/discreteconditionalpdf.cpp", "pdf/mcpdf.h", "pdf/mixture.h", "pdf/pdf.h"],
     [("inverse cumulative search", "pdf/discretepdf.cpp SampleFrom"), ("ordered uniforms", "pdf/mcpdf.h SampleFrom RIPLEY"), ("component selection", "pdf/mixture.h SampleFrom")],
     ["drawn values versus injected uniform draws"],
     RM + "injection of extreme, equidistant and pseudo-random uniform draws; support, exact-frequency and chi-square monitors", EXP + "Chi-square thresholds have false-alarm rates below 1e-12; grids make most frequency checks exact.")

prop("C07", "Sample-based distributions: weights, moments and cumulative sums agree",
     "A distribution represented by weighted samples always has weights that sum to one in the proportions given, the expected value and covariance of exactly these weighted samples, and a cumulative distribution that matches the weights. This holds for vector, scalar and integer samples after any sequence of replacing the sample list (also by one of another length), updating it in place, copying and cloning.",
     ["inputs", "histories"],
     "All sample values, weights, numbers of samples, and histories of list replacements and copies.",
     "Tests use one list of equally weighted samples.",
     ["pdf/mcpdf.h", "sample/weightedsample.h"],
     [("weight normalisation", "pdf/mcpdf.h NormalizeWeights/SumWeightsUpdate"), ("cumulative distribution", "pdf/mcpdf.h CumPDFUpdate"), ("moments", "pdf/mcpdf.h ExpectedValueGet/CovarianceGet")],
     ["sample list, moments and cumulative distribution after every operation"],
     RM + "online model-based monitor against long-double moments", EXP)

prop("C08", "Mixtures keep components and weights consistent",
     "A mixture always holds as many weights as components, its weights are non-negative and sum to one, and its density and expected value are the weighted sums over its components. Adding, deleting, replacing and re-weighting components (in any order) changes exactly what was asked and keeps the proportions of the other weights; the mixture owns copies, so components handed in or deleted by the caller have no influence afterwards.",
     ["inputs", "histories"],
     "All finite sequences of add, delete, set-component, set-weight(s) and copy operations on mixtures of Gaussian, discrete and sample-based components.",
     "Tests perform one fixed sequence on two or three components.",
     ["pdf/mixture.h"],
     [("component and weight lists", "pdf/mixture.h AddComponent/DeleteComponent/WeightSet"), ("cumulative weights", "pdf/mixture.h CumWeightsUpdate"), ("density", "pdf/mixture.h ProbabilityGet")],
     ["components, weights, density, expected value after every operation"],
     RM + "online model-based monitor over random operation histories", EXP)

prop("C09", "Gaussian and uniform densities and samplers are the textbook ones",
     "A Gaussian returns the exact normal density for its current mean and covariance (in every dimension, after any sequence of changing mean, covariance or dimension), and its samples, by every method, are distributed with that mean and covariance, including singular covariances. A uniform distribution has density one over the volume inside its closed box and zero outside, and all its samples lie in the box and are uniform.",
     ["inputs", "histories"],
     "All dimensions, means, covariances (density: positive definite; sampling: semi-definite), boxes, evaluation points and histories of setters interleaved with evaluations.",
     "Tests evaluate one or two fixed densities, and samples are only checked for dimension.",
     ["pdf/gaussian.cpp", "pdf/uniform.cpp"],
     [("cached inverse and determinant", "pdf/gaussian.cpp ProbabilityGet/CovarianceSet"), ("Cholesky and Box-Muller sampling", "pdf/gaussian.cpp SampleFrom"), ("box test", "pdf/uniform.cpp ProbabilityGet")],
     ["density values", "samples versus injected normal/uniform draws"],
     RM + "comparison with long-double densities; samples analysed as linear maps of injected draws", EXP)

prop("C10", "Conditional distributions evaluate and sample at their current arguments",
     "A conditional distribution (linear Gaussian, nonlinear Gaussian with additive noise, discrete table) has, for the conditional arguments set last, the mean, covariance, density and samples of its definition, no matter in which order arguments, matrices, noise parameters or table entries were changed before and what was evaluated in between. Reading a Jacobian, argument or table entry returns what was set or is mathematically defined.",
     ["inputs", "histories"],
     "All dimensions, numbers of conditional arguments, tables, parameter values and interleavings of setters with evaluations and samplings.",
     "Tests set arguments once and evaluate once.",
     ["pdf/conditionalpdf.h", "pdf/linearanalyticconditionalgaussian.cpp", "pdf/conditionalgaussian.cpp", "pdf/conditionalgaussian_additivenoise.cpp", "pdf/analyticconditionalgaussian_additivenoise.cpp", "pdf/discreteconditionalpdf.cpp"],
     [("conditional arguments", "pdf/conditionalpdf.h ConditionalArgumentSet"), ("mean", "pdf/linearanalyticconditionalgaussian.cpp ExpectedValueGet"), ("table index", "pdf/discreteconditionalpdf.cpp IndexGet")],
     ["mean, covariance, density, samples, table entries"],
     RM + "online comparison with the definition in long double over random histories", EXP)

prop("C11", "System and measurement models relay exactly their conditional distribution",
     "A system or measurement model answers every simulation, density, prediction, Jacobian and covariance request as the conditional distribution it wraps does for the state, input and sensor parameter of that very call, and uses the distribution it was last given. Simulated values follow that distribution, and a model reports correctly whether it takes inputs or sensor parameters.",
     ["inputs", "histories", "configurations"],
     "All models (linear, user-defined nonlinear, discrete), all states, inputs, sensor parameters and orders of calls, including replacing the distribution or its matrices.",
     "Tests call each method once with one model.",
     ["model/systemmodel.h", "model/measurementmodel.h", "model/discretesystemmodel.cpp", "model/analyticsystemmodel_gaussianuncertainty.cpp", "model/analyticmeasurementmodel_gaussianuncertainty.cpp", "model/linearanalyticsystemmodel_gaussianuncertainty.cpp", "model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp"],
     [("argument passing", "model/systemmodel.h Simulate/ProbabilityGet"), ("prediction", "model/analyticsystemmodel_gaussianuncertainty.cpp PredictionGet")],
     ["returned values of every model method"],
     RM + "online comparison of every relayed request with the definition", EXP)

prop("C12", "Particle filters propagate and weigh every particle correctly",
     "In every particle filter (generic with any proposal, bootstrap, and with an extended Kalman filter as proposal) an update with a system model moves each particle to a value drawn from the proposal conditioned on that very particle (and this call's input and measurement), and an update with a measurement multiplies its weight by the likelihood times system density over proposal density, then normalises; a pure measurement update moves no particle. The number of particles never changes except by Reset, weights are non-negative and sum to one, each update with a system model counts one time step, an update reports failure when no particle can explain the measurement, and the caller's prior and models are not changed.",
     ["inputs", "histories", "configurations"],
     "All user-defined system, proposal and measurement densities, inputs, sensor parameters, priors (sizes and weights), and histories of updates and resets; resampling disabled (its effects are C13).",
     "Tests run one mobile-robot or ultrasonic example with loose bounds on the estimate.",
     ["filter/particlefilter.cpp", "filter/bootstrapfilter.cpp", "filter/EKparticlefilter.cpp", "pdf/EKF_proposaldensity.cpp", "pdf/filterproposaldensity.cpp", "pdf/mcpdf.h"],
     [("proposal step", "filter/particlefilter.cpp ProposalStepInternal"), ("importance weights", "filter/particlefilter.cpp UpdateWeightsInternal"), ("per-particle covariances", "filter/EKparticlefilter.cpp ProposalStepInternal")],
     ["particles and weights after every update", "log of calls on user-defined densities", "time step"],
     RM + "user-defined densities log every call; online comparison of particles and weights with long-double importance sampling and per-particle EKFs", EXP)

prop("C13", "Particle filters resample exactly when due and without bias",
     "With a fixed period, a particle filter resamples before the system update whose number of completed time steps is a positive multiple of the period, and never otherwise; with a threshold, it resamples after a measurement update exactly when the effective sample size (one over the sum of squared normalised weights) is below the threshold. Resampling keeps the number of particles, gives all the same weight, copies only existing particles of non-zero weight, each on average in proportion to its weight for every outcome of the random draws, and everything attached to a particle (such as its own covariance in the filter with an extended Kalman proposal) follows its copies.",
     ["inputs", "histories", "schedules", "configurations"],
     "All weight vectors, periods, thresholds, numbers of particles, filters (generic, bootstrap, EKF proposal), random draws including extreme ones, and update histories.",
     "Tests only look at the estimate after some steps.",
     ["filter/particlefilter.cpp", "filter/EKparticlefilter.cpp", "filter/bootstrapfilter.cpp", "pdf/mcpdf.h"],
     [("when to resample", "filter/particlefilter.cpp StaticResampleStep/DynamicResampleStep"), ("resampling", "filter/particlefilter.cpp Resample"), ("resampling with covariances", "filter/EKparticlefilter.cpp Resample")],
     ["particles the proposal and likelihood were asked for, particles and weights after the update"],
     RM + "trace monitor of resampling events reconstructed from the calls on user-defined densities; multiplicities checked by exact ordered-uniform grids and chi-square", EXP)

prop("C14", "Mixture particle filters treat components apart and weigh them by evidence",
     "In a mixture particle filter every component is a particle filter of its own: particles are propagated, weighted, normalised and resampled within their component only, and each component's weight is multiplied by the evidence of its own particles (their weighted mean likelihood factor) and normalised. One update counts one time step whatever the number of components, resampling happens per component on the same schedule as for a single particle filter, mixture maintenance is invoked exactly at the positive multiples of its period, Reset accepts a mixture with another number of components, and the caller's mixture is not changed.",
     ["inputs", "histories", "configurations"],
     "All numbers of components and particles per component, component weights, user-defined densities, schedules and histories of updates and resets, for the generic and the bootstrap mixture filter.",
     "Tests run one example with loose bounds on the estimate.",
     ["filter/mixtureParticleFilter.cpp", "filter/mixtureBootstrapFilter.cpp", "pdf/mixture.h", "pdf/mcpdf.h"],
     [("per-component proposal", "filter/mixtureParticleFilter.cpp ProposalStepInternalOne"), ("component weights", "filter/mixtureParticleFilter.cpp UpdateWeightsInternal"), ("schedules", "filter/mixtureParticleFilter.cpp StaticResampleStep/DynamicResampleStepOne/MaintainMixtureStep")],
     ["components' particles and weights, component weights, time step, maintenance calls after every update"],
     RM + "online comparison with an independent long-double mixture particle filter driven by the logged proposals", EXP)

prop("C15", "Particle and histogram filters agree with exact inference on finite systems",
     "On a system with finitely many states, the particle filter (and mixture bootstrap filter) with discrete system and measurement models estimates, for a growing number of particles, the same posterior probabilities as exact Bayesian inference, and so does the histogram filter exactly; the estimates stay within the statistical error for the number of particles over whole histories with inputs, sensor parameters and resampling.",
     ["inputs", "histories", "configurations"],
     "All finite transition and measurement tables with non-degenerate likelihoods, all histories of inputs and measurements, both resampling strategies.",
     "No test compares two inference methods or exercises particle filters over discrete states.",
     ["filter/bootstrapfilter.cpp", "filter/particlefilter.cpp", "filter/mixtureBootstrapFilter.cpp", "filter/histogramfilter.cpp", "pdf/discreteconditionalpdf.cpp", "pdf/mcpdf.h"],
     [("particle update", "filter/particlefilter.cpp UpdateInternal"), ("table lookup and sampling", "pdf/discreteconditionalpdf.cpp")],
     ["estimated state frequencies against exact probabilities"],
     RM + "statistical end-to-end comparison (thresholds at > 9 standard errors) of filters with exact inference", EXP)

prop("C16", "No memory error, undefined behaviour or leak in any documented use",
     "Creating, using, resetting, copying and destroying the distributions, models, filters and smoothers of the library in any documented order reads and writes only live, initialised memory, executes no undefined behaviour, trips no internal assertion, and releases everything that was allocated. Objects handed to a filter or model by the caller remain the caller's: they are neither changed nor freed, and after a reset or replacement the objects used before may be destroyed.",
     ["programs", "histories", "configurations"],
     "All programs of documented API calls with satisfied preconditions: any dimensions, particle counts, interleavings of updates, resets, replacements of models and destruction orders.",
     "Tests run without sanitizers, on one short life cycle per class.",
     ["filter/filter.cpp", "filter/kalmanfilter.cpp", "filter/particlefilter.cpp", "filter/mixtureParticleFilter.cpp", "filter/EKparticlefilter.cpp", "pdf/filterproposaldensity.cpp", "pdf/mixture.h", "pdf/mcpdf.h", "model/systemmodel.h"],
     [("ownership of posterior", "filter/particlefilter.cpp destructor/Reset"), ("ownership of components", "pdf/mixture.h destructor/operator="), ("work matrices by dimension", "filter/kalmanfilter.cpp AllocateMeasModel")],
     ["sanitizer reports, allocated bytes before and after each program, contents of caller's objects"],
     RM + "randomly generated API programs with allocation accounting, poisoned undefined memory and deliberately destroyed old objects", EXP)

prop("C17", "Copies, clones and assignments are independent and equal",
     "Copying, cloning or assigning a distribution, sample, matrix or vector gives an object that behaves the same (same parameters, density, conditional arguments, moments) and is independent: later changes to, or destruction of, either one never affect the other. Assigning an object to itself, or to one of another size, is safe and leaves the expected contents.",
     ["inputs", "histories", "programs"],
     "All classes with copy constructor, assignment or Clone, in any state reachable by setters and evaluations (caches filled or not), any order of later mutation and destruction.",
     "Tests compare a copy right after copying, for a few classes.",
     ["pdf/gaussian.cpp", "pdf/uniform.cpp", "pdf/discretepdf.cpp", "pdf/mcpdf.h", "pdf/mixture.h", "pdf/discreteconditionalpdf.cpp", "pdf/linearanalyticconditionalgaussian.cpp", "sample/sample.h", "sample/weightedsample.h"],
     [("deep copies", "pdf/mixture.h copy constructor/operator="), ("tables", "pdf/discreteconditionalpdf.cpp copy constructor/operator=")],
     ["observable parameters of both objects after every mutation"],
     RM + "paired-object monitor: observations of both objects compared with a model through random mutations and destruction under ASan", EXP)

prop("C18", "Matrix and vector wrappers implement linear algebra exactly as documented",
     "Every operator and method of the matrix and vector wrappers (element access, construction, fill, resize, arithmetic between matrices, symmetric matrices, vectors and scalars, transposes, sub-matrices, row and column copies, concatenation, conversions and comparisons) gives the mathematically defined result for all dimensions and values, with indices from one, on each matrix back end, and leaves its operands unchanged unless it is an assignment operator.",
     ["inputs", "configurations", "programs"],
     "All shapes (including one-row and one-column), values and sequences of operations, Boost and Eigen back ends.",
     "Tests use one 2 to 4 dimensional instance per operator; several operators are never executed.",
     ["wrappers/matrix/matrix_BOOST.cpp", "wrappers/matrix/matrix_EIGEN.cpp", "wrappers/matrix/vector_BOOST.cpp", "wrappers/matrix/vector_EIGEN.cpp", "wrappers/matrix/matrix_wrapper.cpp"],
     [("operators", "wrappers/matrix/matrix_BOOST.cpp"), ("operators", "wrappers/matrix/matrix_EIGEN.cpp")],
     ["result and operands of every operation"],
     RM + "differential execution of random operation sequences against a long-double reference", EXP)

prop("C19", "Inverses, determinants and decompositions satisfy their defining equations",
     "For every matrix in their domain the inverse times the matrix is the identity, the determinant is the exact determinant, the Cholesky factor of a positive semi-definite matrix is lower triangular and squares to it (and an indefinite matrix is refused), the singular value decomposition multiplies back to the matrix with orthonormal factors and non-negative singular values, and the pseudo-inverse satisfies the Penrose conditions for singular values above its threshold. Inputs are not modified and the result does not depend on earlier calls.",
     ["inputs", "configurations"],
     "All square (inverse, determinant, Cholesky) and rectangular (SVD, pseudo-inverse) matrices up to conditioning that double precision can resolve, including singular, diagonal, permuted, scaled and rank-deficient ones, both back ends.",
     "Tests decompose one or two fixed matrices.",
     ["wrappers/matrix/matrix_wrapper.cpp", "wrappers/matrix/matrix_BOOST.cpp", "wrappers/matrix/matrix_EIGEN.cpp"],
     [("Cholesky", "wrappers/matrix/matrix_wrapper.cpp cholesky_semidefinite"), ("SVD", "wrappers/matrix/matrix_wrapper.cpp SVD"), ("pseudo-inverse", "wrappers/matrix/matrix_wrapper.cpp pseudoinverse"), ("inverse and determinant", "wrappers/matrix/matrix_BOOST.cpp")],
     ["factors returned"],
     RM + "residual monitors of the defining equations in long double", EXP)

prop("C20", "The Rauch-Tung-Striebel smoother gives the exact smoothed posterior",
     "Running the Rauch-Tung-Striebel smoother backwards over the filtered estimates of a linear-Gaussian system gives, at every time step, the mean and covariance of the state given all measurements; for a nonlinear system it linearises at the filtered estimate with that step's input. It does not change the filtered posterior or the model it is given, Reset restarts it, and its posterior covariance stays symmetric.",
     ["inputs", "histories", "configurations"],
     "All linear-Gaussian models and nonlinear models with Jacobians, all dimensions, inputs and lengths of history.",
     "Tests smooth one robot trajectory and compare with loose or recorded numbers.",
     ["smoother/rauchtungstriebel.cpp", "smoother/backwardfilter.cpp"],
     [("smoother gain", "smoother/rauchtungstriebel.cpp SysUpdate"), ("dispatch", "smoother/backwardfilter.cpp Update")],
     ["smoothed mean and covariance at every step"],
     RM + "comparison with batch least-squares (joint Gaussian) smoothing and with the step equations in long double", EXP)

prop("C21", "The particle smoother reweights filtered particles by the backward recursion",
     "One step of the particle smoother keeps the filtered particles where they are and gives each a weight proportional to its filtered weight times the sum, over the smoothed particles of the next time step, of their weight times the transition density to them divided by the total transition density to them from all filtered particles. The weights are non-negative and sum to one, and the filtered posterior, the models and the caller's prior are not changed.",
     ["inputs", "histories"],
     "All system densities (user-defined, with and without input), numbers of particles, weights and lengths of history.",
     "Tests check the estimate of one robot trajectory loosely.",
     ["smoother/particlesmoother.cpp", "smoother/particlesmoother.h", "smoother/backwardfilter.cpp"],
     [("backward weights", "smoother/particlesmoother.cpp SysUpdate")],
     ["particles and weights after every step"],
     RM + "online comparison with the backward recursion in long double", EXP)

prop("C22", "Random numbers have the promised distribution and range",
     "The uniform generator returns independent numbers in [0,1), or in [min,max) for the given bounds, and the normal generator returns independent numbers with the given mean and standard deviation, for all parameter values and however the two are interleaved; successive numbers differ and a zero standard deviation returns the mean.",
     ["schedules", "inputs"],
     "All parameters and interleavings of calls.",
     "Tests use the generators only indirectly.",
     ["wrappers/rng/rng.cpp"],
     [("generators", "wrappers/rng/rng.cpp rnorm/runif")],
     ["generated numbers"],
     RM + "range, moment, distribution (Kolmogorov-Smirnov/chi-square) and serial-independence monitors with negligible false-alarm rates", EXP)

prop("C23", "Symbolic (GiNaC) models agree with their formula and its derivatives",
     "A symbolic nonlinear model with Gaussian noise evaluates, for every state, input, parameter and measurement, to the value of its formula at these arguments, to the exact Jacobian with respect to the state, and to the covariance of its noise transformed as the formula prescribes; copies behave the same, and filters using it obtain the same posterior as with a hand-written model of the same formula.",
     ["inputs", "histories", "configurations"],
     "All formulas over the supported functions, any number of state, input and parameter symbols, all argument values and orders of calls.",
     "No stable test builds with symbolic support.",
     ["pdf/nonlinearanalyticconditionalgaussian_ginac.cpp", "model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp", "model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp"],
     [("substitution", "pdf/nonlinearanalyticconditionalgaussian_ginac.cpp ExpectedValueGet"), ("derivatives", "pdf/nonlinearanalyticconditionalgaussian_ginac.cpp dfGet"), ("noise", "pdf/nonlinearanalyticconditionalgaussian_ginac.cpp CovarianceGet")],
     ["values, Jacobians, covariances, posteriors"],
     RM + "comparison of randomly generated formulas with an independent long-double evaluator and automatic differentiation", EXP)

prop("C24", "Results depend only on inputs: not on undefined memory, and not on the back end",
     "The same program with the same random numbers gives the same results whatever happens to be in uninitialised stack or heap memory and whatever other objects were used before in the process. The two matrix back ends give the same results up to rounding.",
     ["programs", "configurations", "histories"],
     "All programs of documented API calls; all contents of undefined memory; Boost and Eigen back ends.",
     "Tests run once, in one process, with whatever memory contents happen to be there.",
     ["filter/particlefilter.cpp", "filter/mixtureParticleFilter.cpp", "filter/kalmanfilter.cpp", "pdf/gaussian.cpp", "pdf/mcpdf.h", "wrappers/matrix/matrix_BOOST.cpp", "wrappers/matrix/matrix_EIGEN.cpp"],
     [("initialisation of members", "filter/particlefilter.cpp constructors"), ("cached state", "pdf/gaussian.cpp")],
     ["traces of all observable results of each program"],
     RM + "differential execution: the same programs with pattern-filled and zero-filled undefined memory, alone and after other programs, and on both back ends; traces compared", EXP)


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "harness", p[0]["id"].lower() + ".cpp"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in have:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
             checks=[dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 check.py " + p["id"],
                          thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"], evidence_file="evidence/%s.json" % p["id"],
                          technique=t, level="exploration", level_note=n) for p, t, n in have],
             not_applicable=[], notes="See DESIGN.md. No hooks in /repo: the checks link the library with --wrap on its random generators and observe it through its public API. Known findings and repaired defects: KNOWN_FINDINGS.txt.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    # DESIGN.md from its template
    props = []
    for p, t, n in have:
        src = open(os.path.join(V, "harness", p["id"].lower() + ".cpp")).read()
        m = re.search(r"H::rule *=(.*?);\n", src, re.S)
        rule = "".join(re.findall(r'"((?:[^"\\\\]|\\\\.)*)"', m.group(1)))
        k = re.search(r"ncases\(bool \w+\) *\{ *return \w+ \? (\d+) : (\d+)", src)
        props.append("### %s %s\n\n*Decided by:* %s.\n\n*Workload and oracle:* %s\n\n*Bounds:* %s cases per back end (quick %s). %s\n\n*Why tests cannot:* %s\n" % (
            p["id"], p["title"], t, rule, k.group(1) if k else "?", k.group(2) if k else "?", n.strip(), p["why_tests_cant"]))
    seeds = []
    try: caught = json.load(open(os.path.join(V, "tools", "caught.json")))
    except OSError: caught = {}
    for i in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        seeds.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], caught.get(i, "not run")))
    d = open(os.path.join(V, "tools", "DESIGN.in")).read()
    d = d.replace("%PROPS%", "\n".join(props)).replace("%SEEDS%", "| bug | property | needs | result |\n|---|---|---|---|\n" + "\n".join(seeds))
    open(os.path.join(V, "DESIGN.md"), "w").write(d)
    print(len(have), "properties")


main()
