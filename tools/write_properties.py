import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
KH,KC="src/include/kfilter.hpp","src/kfilter.cpp"
CH,CC="src/include/carpack.hpp","src/carpack.cpp"
PY="src/carmcmc/carma_pack.py"
p("C01","Filter output is the exact Gaussian one-step-ahead forecast of each point",
"For any time series with any spacing and any measurement errors, and any stationary CAR(1) or CARMA(p,q) parameters with distinct roots, filtering yields for every measurement the mean and variance of that measurement conditional on all earlier measurements under the stationary Gaussian process plus independent measurement noise. The first value is the unconditional mean and variance, and means and variances are never NaN on finite well-conditioned input.",
["inputs","configurations"],"all series (lengths, irregular gaps, zero and unequal errors) x all CAR(1)/CARMA(p,q) parameters, p up to 7",
"The existing tests compare a handful of fixed series with one hand-written filter or only check finiteness; they cannot range over gap patterns, error patterns and model orders.",
[KC,KH],[("KalmanFilter1::Reset/Update",KC),("KalmanFilterp::Reset/Update",KC)],
["KalmanFilter1/KalmanFilterp Filter(), GetMean(), GetVar()"],
[("state vector and covariance","rotated state estimate carried from point to point",KH)])
p("C02","Prediction at any time is the exact conditional mean and variance",
"For any measured series and model parameters, predicting the process at any requested time - before the first, between any two, exactly at, or after the last measurement - returns the mean and variance of the noise-free process at that time conditional on the whole measured series. At a time that was measured without error the measured value itself is returned with zero variance.",
["inputs","configurations"],"all series x parameters x prediction times in every position relative to the data",
"Tests look at one interpolation configuration; the answer depends on where the time falls, on all error bars and on all later points.",
[KC],[("KalmanFilter1::Predict, InitializeCoefs, UpdateCoefs",KC),("KalmanFilterp::Predict, InitializeCoefs, UpdateCoefs",KC)],
["KalmanFilter1/KalmanFilterp Predict(t)"])
p("C03","Simulated paths follow the joint law conditional on the data, in request order",
"Values simulated at any set of requested times, in any order, are a draw from the joint conditional Gaussian distribution of the process at those times given the measured series, so values at nearby times are mutually consistent, not just individually distributed. The i-th returned value belongs to the i-th requested time, and a time measured without error returns the measurement.",
["inputs","histories"],"all series x parameters x request vectors (any order, clustered, outside or inside the observed span) x random draws",
"Tests check the shape or the marginal mean of one simulation; joint consistency and order need a reference joint law for each request vector.",
[KH,KC],[("KalmanFilter::Simulate: sequential draw and insertion",KH)],["Simulate(times)"])
p("C04","A filter object answers every query independently of earlier queries",
"Whatever sequence of filtering, predicting, simulating and parameter or data changes has been applied to one filter object, the next filter run or prediction equals that of a freshly built object with the current data and parameters. No query changes the measured data held by the object.",
["histories"],"all call sequences over {filter, step, predict, simulate, change sigma, change roots, change MA coefficients, change series, change errors}",
"Tests call each operation once on a fresh object; left-over internal state only shows after particular sequences.",
[KH,KC],[("Simulate saves and restores the series",KH),("Reset/Predict rerun from scratch",KC)],["GetMean/GetVar/Predict after any history"],
[("time_, y_, yerr_, dt_","series held by the object",KH),("mean, var, current_index_","left-overs of the last query",KH)])
p("C05","Row order and repeated times of the input never change the results",
"Passing the same measurements in any row order gives the same filter output, predictions, log-density and prior bounds as passing them sorted by time, each value keeping its own time and its own error bar. Among rows with an identical time exactly one complete row is used and the others are dropped.",
["inputs"],"all permutations and duplications of rows, for the filters, the posterior classes and the Python model",
"Tests feed sorted unique times, apart from one sorting test that looks only at the time vector.",
[KH,CH,PY],[("KalmanFilter::init sorts and removes duplicates",KH),("CARMA_Base::UseFilterData",CH),("CarmaModel.__init__ unique",PY)],
["GetTime/GetTimeSeries/GetTimeSeriesErr, GetMean, LogDensity"])
p("C06","Log-density is the exact Gaussian log-likelihood plus the log-prior",
"For every parameter vector inside the prior support, the log-density of the CAR(1), CAR(p), CARMA(p,q), and both constrained-MA (ZCARMA) posteriors equals the exact Gaussian log-likelihood of the mean-subtracted series, with measurement variances multiplied by the scale parameter and the driving noise fixed by the process standard deviation, plus the log-prior, up to a constant that does not depend on the parameters. This holds whatever parameter vectors were evaluated before.",
["inputs","configurations","histories"],"all parameter vectors in the support x model classes and orders x data x evaluation histories",
"Tests evaluate the density at a few points against the same filter code; they cannot show exactness across orders, error scales and means.",
[CH,CC],[("CARMA_Base::LogDensity",CH),("SetKalmanPars / ExtractMA / KalmanInputs",CC)],["LogDensity(theta), getLogDensity"])
p("C07","Prior support and prior density are exactly as documented",
"The log-density is minus infinity exactly when the process deviation, the error-scale factor or a characteristic frequency or width lies outside its documented bounds, when roots coincide, or when the Lorentzian centroids are not in non-increasing order; otherwise it is finite. The log-prior itself is the documented inverse-chi-square term on the error scale (plus the logistic term for the constrained-MA model), and in maximum-likelihood mode the models of order two and higher enforce none of these bounds.",
["inputs","configurations"],"all parameter vectors on both sides of every bound, all p parities, with and without maximum-likelihood mode",
"Tests check a couple of out-of-range vectors; each bound, each side, each root pairing needs its own case.",
[CH,CC],[("CheckPriorBounds",CC),("SetPrior / LogPrior / SetMLE",CH)],["LogDensity, getLogPrior, SetMLE"])
p("C08","Parameters decode to the roots, MA polynomial and variance they stand for",
"Every parameter vector decodes to AR roots whose characteristic polynomial is the product of the quadratic (and, for odd order, linear) factors given by the exponentiated parameters, to the corresponding normalised MA polynomial, and to a driving-noise amplitude for which the stationary standard deviation of the process is the first parameter. The process autocovariance at any lag is the one implied by those polynomials.",
["inputs","configurations"],"all p up to 7, q < p, even and odd, complex and real factors",
"Tests decode a few vectors of one parity; order parities and MA normalisations combine.",
[CC,CH],[("CARp::ARRoots, CARMA::ExtractMA, ZCAR/ZCARMA MA, Variance",CC)],["ARRoots, ExtractMA, Variance, KalmanFilter GetSigsqr/GetOmega/GetMA"])
p("C09","Starting values are finite, inside the prior, or exactly the user's values",
"Every starting value drawn for any model on any non-constant data set with at least three distinct times has a finite log-density, so a chain can always leave it. A user-supplied starting vector of the right length and finite log-density is used unchanged for every chain; one of another length, or of log-density minus infinity, is replaced by such a draw.",
["inputs","configurations"],"all data scales and spacings x model classes x random draws x initial vectors",
"Tests draw a few starting values on one data set and do not look at whether the chain can move.",
[CC,"src/samplers.cpp"],[("StartingValue/StartingAR/StartingMA rejection loop",CC),("Sampler::Run init handling","src/samplers.cpp")],["StartingValue, LogDensity, first recorded value"])
p("C10","Metropolis moves are accepted with exactly the right probability",
"In every state of finite log-density, each Metropolis step (plain or adaptive, at any temperature) accepts the proposed value with probability min(1, exp((new - current log-density)/temperature + proposal correction)), never accepts a value of non-finite log-density, and otherwise keeps the value unchanged. After every step the stored log-density is that of the stored value.",
["histories","inputs"],"all step histories over arbitrary log-density functions, including minus infinity and NaN, temperatures and proposals",
"Tests run a chain and compare summary moments; a wrong ratio in a corner state leaves those within tolerance.",
["src/include/steps.hpp","src/steps.cpp"],[("MetropStep::Accept/DoStep","src/include/steps.hpp"),("AdaptiveMetro::Accept/DoStep","src/steps.cpp")],["GetMetroRatio, parameter Value/GetLogDensity after DoStep"])
p("C11","Proposal covariance adapts by the published rule, then stays fixed",
"During the first configured number of iterations each adaptive step replaces the proposal covariance S by S + step*(acceptance probability - target)*d*d'/|u|^2, where d is the proposed displacement, u the underlying unit draw and step = min(1, dimension/iteration^decay); it stays symmetric positive definite. After those iterations the covariance never changes again, and every displacement is the covariance square root applied to the unit draw.",
["histories"],"all histories of accepted, rejected and impossible proposals, any dimension, target and decay",
"Tests look at the final acceptance rate of one long run, which a wrong rule can still reach.",
["src/steps.cpp","src/include/steps.hpp"],[("AdaptiveMetro::DoStep, CholUpdateR1","src/steps.cpp")],["GetCovariance before and after DoStep"])
p("C12","Chain exchange swaps whole states with the tempering acceptance rule",
"An exchange between two neighbouring chains happens with probability min(1, exp((1/T_hot - 1/T_cold)(L_cold - L_hot))) and swaps both the parameter values and their log-densities, or leaves both chains untouched. All other chains and all temperatures are unaffected, and afterwards every chain's stored log-density is that of its stored value.",
["histories","schedules"],"all ladders, chain positions, finite log-density pairs and histories of exchanges and moves",
"Tests exercise one exchange for one pair; a partial swap or a wrong sign shows only for particular pairs.",
["src/include/steps.hpp","src/include/parameters.hpp"],[("ExchangeStep::DoStep","src/include/steps.hpp")],["GetMetroRatio, Value, GetLogDensity of all chains"])
p("C13","Sampler runs every step in order and records exactly the thinned states",
"A run initialises every parameter, performs the burn-in iterations without recording, then for each of the requested samples performs exactly the thinning number of iterations - every step once per iteration, in the order added - and records the current value and log-density of every tracked parameter. Untracked parameters are never recorded, and running again gives a fresh set of the same size.",
["schedules","histories","configurations"],"all step lists, burn-in, thinning and sample-size combinations, tracked or untracked",
"Tests use one configuration and check the sample count.",
["src/samplers.cpp","src/include/samplers.hpp","src/include/parameters.hpp"],[("Sampler::AddStep/Run/Iterate/SaveValues","src/samplers.cpp")],["sequence of DoStep calls, GetSamples, GetLogLikes"])
p("C14","Recorded chain is the temperature-one chain for any number of chains",
"For any number of tempered chains, the recorded chain moves at temperature one, the other chains sit on a geometric ladder up to 100, every neighbouring pair is offered one exchange per iteration and every chain one move per iteration, and adaptation stops at the end of burn-in. All chains use the same data, model order and prior bound.",
["configurations","schedules"],"all numbers of chains, model orders, burn-in, thinning, sample sizes and model kinds",
"Tests run with one chain count and cannot see temperatures or wiring.",
["src/carmcmc.cpp"],[("RunCarmaSampler temperature ladder and step list","src/carmcmc.cpp"),("RunCar1Sampler","src/carmcmc.cpp")],["temperatures and step sequence of the objects the sampler builds; run_mcmc_carma output"])
p("C15","Every returned posterior sample carries its own log-posterior",
"Whatever the model, the number of chains, burn-in, thinning or starting vector, a run returns exactly the requested number of samples, each of the right length, each inside the prior support, and each paired with the log-posterior that evaluating that sample gives.",
["configurations","inputs","histories"],"all run configurations, data sets and random histories",
"Tests check the count of samples for one configuration and never re-evaluate the samples.",
["src/carmcmc.cpp","src/boost_python_wrapper.cpp","src/include/parameters.hpp",CH],[("RunCar1Sampler/RunCarmaSampler","src/carmcmc.cpp"),("getSamples/GetLogLikes/getLogDensity",CH)],["run_mcmc_car1, run_mcmc_carma, getSamples, GetLogLikes, getLogDensity"])
p("C16","Each proposal's reported density matches how it draws",
"For every proposal kind, the density correction used in the acceptance rule is the true log-ratio of reverse to forward proposal densities for the move actually drawn, so the move leaves the target distribution unchanged. Stretch moves lie on the line through another, never the same, ensemble member with a scale within its support.",
["inputs","histories"],"all current values, dimensions, ensemble sizes, scale supports and draws",
"Tests check that proposals have roughly the right spread, not that draw and density agree.",
["src/proposals.cpp","src/include/proposals.hpp"],[("Normal/Student/MultiNormal/LogNormal/StretchProposal Draw and LogDensity","src/include/proposals.hpp")],["Draw, LogDensity"])
p("C17","The same seed reproduces every draw and every run exactly",
"After setting the same seed, any sequence of random draws, simulations, starting values and whole sampler runs is reproduced bit for bit. Saving the generator state to a file and recovering it later resumes exactly the same stream of raw numbers.",
["histories"],"all sequences of draws and runs after seeding, all save/recover points",
"Tests do not fix the seed at all.",
["src/random.cpp","src/include/random.hpp",CC],[("RandomGenerator::SetSeed/SaveSeed/RecoverSeed","src/random.cpp")],["RandGen draws, StartingValue, RunCarmaSampler output"])
p("C18","Random variates follow their documented distributions",
"For all parameter values, the exponential, normal, multivariate normal, lognormal, real and integer uniform, power-law, Student t, chi-square, scaled inverse chi-square, gamma and inverse-gamma generators return variates of the documented distribution with the documented meaning of each parameter.",
["inputs"],"all parameter values of each distribution, many draws",
"Tests check none or a mean; swapped scale and rate conventions survive at unit parameters.",
["src/random.cpp"],[("RandomGenerator methods","src/random.cpp")],["RandGen methods"])
p("C19","Python samples: derived quantities match the raw parameter vectors",
"For every stored posterior sample, the derived AR roots, AR and MA coefficients, Lorentzian centroids and widths, variance, driving-noise amplitude, mean and error scale are those implied by that sample's raw parameter vector, in the same row position. This holds for every order p and q, even and odd.",
["inputs","configurations"],"all raw sample matrices for all p, q",
"Tests check array shapes and one order; a row or parity mix-up keeps shapes intact.",
[PY],[("CarmaSample._ar_roots/_ar_coefs/_ma_coefs/_sigma_noise/generate_from_trace",PY),("Car1Sample",PY)],["CarmaSample/Car1Sample get_samples"])
p("C20","Python samples: log-likelihood, log-posterior and information criterion",
"Each stored log-posterior is the posterior log-density of that row's raw vector and each stored log-likelihood is the same value without the log-prior, for every row and model order. The deviance information criterion equals the mean deviance plus half its variance over those rows.",
["inputs","configurations"],"all sample sets, orders and row positions",
"Tests never recompute per-row values.",
[PY,"src/boost_python_wrapper.cpp"],[("CarmaSample.__init__ loglik/logpost",PY),("CarmaSample.DIC",PY)],["get_samples('loglik'), get_samples('logpost'), DIC"])
p("C21","Python predict and simulate use the chosen parameter vector and restore the mean",
"Prediction and simulation from a fitted sample use one consistent parameter set - the maximum a posteriori row, the component-wise median or mean over the rows of the stored quantities (series mean, AR roots, MA coefficients, driving noise), or one random row, as asked - give the exact conditional law of the process for that set given the data with their error bars as supplied, and return values on the scale of the data with the series mean included. They leave the stored data and samples unchanged.",
["inputs","configurations","histories"],"all sample sets x best-fit choices x request times x call histories",
"Tests only check that the calls return finite numbers of the right shape.",
[PY],[("CarmaSample.makeKalmanFilter/predict/simulate",PY),("Car1Sample.makeKalmanFilter",PY)],["predict, simulate"])
p("C22","Maximum-likelihood fit and order choice report what they maximised",
"The reported maximum-likelihood vector has exactly the reported objective value under the model's own log-density and is the best of the optimisations run, for any number of trials and jobs. Order selection examines every permitted (p, q) pair once, scores each with the corrected Akaike criterion for its parameter count, and leaves the model set to the order with the smallest score. Fits and sampler runs use the data, order and settings given to the model.",
["configurations","inputs"],"all (p, q), pmax/qmax limits, trial counts and job counts, all data sets",
"Tests run one small selection and check only that something is returned.",
[PY],[("CarmaModel.get_mle/choose_order/run_mcmc",PY)],["get_mle, choose_order, model.p/model.q"])
p("C23","Power spectrum, variance and root functions agree with the process definition",
"For all stationary roots, MA coefficients and driving noise, the power spectrum is sigma^2 |MA(2 pi i f)|^2/|AR(2 pi i f)|^2, the autocovariance at every lag is its Fourier transform with the stationary variance at lag zero, and roots built from widths and centroids have exactly those widths and centroids in conjugate pairs.",
["inputs","configurations"],"all orders, roots, MA vectors, frequencies and lags",
"Tests compare one order with one stored number.",
[PY,CC],[("power_spectrum, carma_variance, get_ar_roots",PY),("CARp::Variance",CC)],["power_spectrum, carma_variance, get_ar_roots, C++ Variance"])
p("C24","Power spectrum bands are pointwise percentiles of the per-sample spectra",
"At every returned frequency the lower, middle and upper band values are the requested percentiles over the used posterior samples of each sample's own power spectrum, and lie in that order. The frequency grid spans one over the observed time range to half the inverse of the smallest spacing; asking for fewer samples uses that many distinct rows.",
["inputs","configurations"],"all sample sets, percentile levels, subsample sizes and orders",
"Tests only check that plotting runs.",
[PY],[("CarmaSample.plot_power_spectrum, Car1Sample.plot_power_spectrum",PY)],["plot_power_spectrum return values"])
p("C25","Synthetic light curves follow the exact law of the requested process",
"A light curve generated for any set of distinct times (increasing for CAR(1), in any order for CARMA) is a draw from the joint stationary Gaussian distribution of the requested CAR(1) or CARMA process at those times, the i-th value belonging to the i-th time, with the stationary variance from the very first value. The caller's arrays are not modified.",
["inputs","configurations"],"all roots, MA vectors, noise amplitudes, time vectors and draws",
"Tests generate one series and look at its variance loosely.",
[PY],[("carma_process, car1_process",PY)],["carma_process, car1_process"])
p("C26","Reading or using results never changes them",
"Any sequence of reads, summaries, predictions, simulations, spectra and criteria on a fitted sample leaves the stored samples, raw trace and data bit-identical, a returned array of samples may be modified by the caller without affecting later reads, and the arrays a caller passes in are never modified. Adding a point estimate only adds it.",
["histories"],"all sequences of public read operations on a sample object",
"Tests never compare the state before and after calls.",
["src/carmcmc/samplers.py",PY],[("MCMCSample.get_samples copies","src/carmcmc/samplers.py")],["get_samples before and after"])
p("C27","Point-estimate summary is decoded like a posterior sample",
"The summary attached for a maximum-likelihood vector contains the roots, AR and MA coefficients, centroids, widths, variance, mean, error scale and driving noise that the vector stands for, for every order, and its reported value is the maximised log-density.",
["inputs","configurations"],"all optimiser results for all p, q including odd orders and q = 0",
"Tests never reach this code with even and odd orders.",
[PY],[("CarmaSample.add_mle",PY)],["CarmaSample.mle"])
p("C28","Interactive setup accepts exactly the first valid answer to each question",
"For any sequence of answers, each question is repeated until a valid answer is given - an existing readable data file, a writable output file, sample size and thinning of at least one, non-negative burn-in - and the returned options are the first valid answers in order. The random generator is seeded from the given seed, or restored from the saved seed file when that is asked for and present.",
["histories","inputs"],"all sequences of valid and invalid answers and seed choices",
"The interactive path is not tested at all.",
["src/samplers.cpp"],[("mcmc_options_prompt, read_from_file, write_to_file","src/samplers.cpp")],["returned options, first random draw"])
p("C29","The goodness-of-fit figure shows the fitted law and its residuals",
"For any fitted sample and choice of parameters (mean, median, maximum a posteriori), the figure of assess_fit shows the measurements; the interpolated mean and the band of one standard deviation of the process given the data, on an even grid of the requested number of times from the first to the last measurement; the residuals standardized with the one-step forecasts of the chosen parameters and their histogram; and the autocorrelation of the residuals and of the squared residuals (about their mean) with the 95 per cent interval of white noise. The figure does not depend on the units of time and flux or on the origin of time.",
["inputs","configurations"],"all fitted samples, choices, series lengths, units and origins of time, numbers of grid points",
"Tests only check that the function runs on one series.",
[PY],[("CarmaSample.assess_fit",PY),("CarmaSample.predict, makeKalmanFilter",PY)],["lines, areas, bars and segments of the returned figure"])
p("C30","Summaries and diagnostic plots report the stored samples",
"For every history of loading parameters and asking for reports, the printed summaries (effective number, median, standard deviation, 68, 95 and 99 per cent intervals of every element), the effective numbers, traces, histograms, autocorrelations, joint plots and kernel-density contours (holding 68.27, 95.45 and 99.73 per cent of the probability) are those of the stored samples of exactly the named parameter and element, whatever the units of the values. Parameters read from a file have the name and the values that are in the file, a name already present keeps its samples, and unknown names give a message and nothing else.",
["histories","inputs"],"all sequences of loads and reports, all parameter shapes, values and units",
"Tests only check that plotting does not raise.",
["src/carmcmc/samplers.py"],[("MCMCSample.posterior_summaries, effective_samples, plot_trace, plot_1dpdf, plot_2dpdf, plot_2dkde, plot_autocorr, plot_parameter, generate_from_file","src/carmcmc/samplers.py")],["printed text, figures, get_samples"])
p("C31","The filter written in Python gives the exact law of the process",
"The Python Kalman filter (KalmanFilterDeprecated) gives, for every order including one, all stationary roots, MA coefficients and series, the exact one-step forecast means and variances, the exact mean and variance of the process at any time after the first measurement (other than the times of error-free measurements) given the whole series, and simulated values at increasing such times that follow the exact joint conditional law; the series passed in is unchanged and repeating a call gives the same answer.",
["inputs","histories"],"all orders, roots, MA vectors, series, requested times and sequences of calls",
"Tests compare one series with the compiled filter.",
[PY],[("KalmanFilterDeprecated.reset, update, filter, predict, simulate",PY)],["kalman_mean, kalman_var, predict, simulate"])
p("C32","Objects alive together in one Python process never influence one another",
"A Python process may hold any number of model posteriors (made directly or returned by sampler runs) and filters of the compiled module, on the same or different series, of the same or different orders, and call them in any interleaving, replacing and deleting some of them. Every log-density, log-prior, forecast, prediction and simulated path of an object is the one determined by the arguments it was made with and its own settings. Arrays handed in or out are copies: a call leaves its arguments as they were, and writing into any of them afterwards changes no later answer. Optional arguments left out take their documented defaults.",
["histories","schedules","inputs"],"all interleavings of calls on up to four live objects (posterior, run result, filter), with objects replaced, deleted and remade, and all series, orders and parameters",
"Tests hold one object at a time and never compare its answers after others were used; shared state shows only under particular interleavings of objects that have something in common.",
["src/boost_python_wrapper.cpp",KH,CH,"src/carmcmc.cpp"],[("exported classes and run_mcmc_car1, run_mcmc_carma","src/boost_python_wrapper.cpp"),("vector constructors, GetMean/GetVar/Simulate copies",KH),("getLogDensity, getLogPrior, SetMLE, getSamples",CH)],
["carmcmc._carmcmc: CAR1, CARp, CARMA, KalmanFilter1, KalmanFilterp, run_mcmc_car1, run_mcmc_carma"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
