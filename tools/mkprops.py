#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to review and edit)."""
import json, os

P = []
A = "allantools/allantools.py"


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": None}})


FIX = ("The tests compare a handful of fixed recordings with numbers Stable32 printed for the octave/decade averaging "
       "factors; ")

prop("C01", "ADEV and OADEV equal the two-sample variance formulas",
     "For every phase series of N points, every sampling rate and every averaging factor m, adev() and oadev() return "
     "sqrt( sum (x[i+2m]-2x[i+m]+x[i])^2 / (2 n tau^2) ) with tau = m/rate, where adev() steps i by m and oadev() steps i by 1 "
     "through every i for which all three points exist. The reported n is the number of those terms, the reported error is "
     "deviation/sqrt(n), and a tau is reported exactly when n is at least 2.",
     ["inputs", "configurations"],
     "all real-valued phase vectors, all positive rates, all averaging factors, all lengths (bounded in the check; see DESIGN)",
     FIX + "lengths where m does not divide N, very short series, m at the last admissible value and rates other than 1 are hardly sampled.",
     [A], [("calc_adev_phase", A), ("adev", A), ("oadev", A)], ["adev()", "oadev()"])

prop("C02", "MDEV and TDEV equal the modified Allan variance formulas",
     "For every phase series of N points, rate and averaging factor m, mdev() returns the square root of "
     "1/(2 m^2 tau^2 (N-3m+1)) times the sum over all N-3m+1 start points j of the square of "
     "sum_{i=j..j+m-1} (x[i+2m]-2x[i+m]+x[i]), and tdev() returns tau/sqrt(3) times that. The reported n is N-3m+1, the error is "
     "deviation/sqrt(n), and a tau is reported exactly when N-3m+1 is at least 2.",
     ["inputs", "configurations"],
     "all real-valued phase vectors, all positive rates, all averaging factors, all lengths (bounded)",
     FIX + "the running-sum recurrence used for speed has edge behaviour (3m close to N, short series) that those runs never reach.",
     [A], [("mdev (loop-unrolled running sums)", A), ("tdev", A)], ["mdev()", "tdev()"])

prop("C03", "HDEV and OHDEV equal the three-sample variance formulas",
     "For every phase series, rate and averaging factor m, hdev() and ohdev() return "
     "sqrt( sum (x[i+3m]-3x[i+2m]+3x[i+m]-x[i])^2 / (6 n tau^2) ), where hdev() steps i by m and ohdev() steps i by 1 through every i "
     "for which all four points exist. The reported n is the number of those terms, the error is deviation/sqrt(n), and a tau is "
     "reported exactly when n is at least 2.",
     ["inputs", "configurations"],
     "all real-valued phase vectors, all positive rates, all averaging factors, all lengths (bounded)",
     FIX + "edge lengths and averaging factors are not covered.",
     [A], [("calc_hdev_phase", A), ("hdev", A), ("ohdev", A)], ["hdev()", "ohdev()"])

prop("C04", "TOTDEV equals the total variance of the doubly reflected series",
     "For every phase series of N points, rate and averaging factor m from 1 to N-1, totdev() returns "
     "sqrt( sum over the interior points i=2..N-1 of (x*[i-m]-2x*[i]+x*[i+m])^2 / (2 tau^2 (N-2)) ), where x* is the series extended at both "
     "ends by odd reflection about its first and last points. The reported n is N-2 and the error is deviation/sqrt(n).",
     ["inputs", "configurations"],
     "all real-valued phase vectors, all positive rates, all averaging factors up to N-1, all lengths (bounded)",
     FIX + "the reflected region is only exercised by the largest of those factors.",
     [A], [("totdev (reflection, windows)", A)], ["totdev()"])

prop("C05", "MTOTDEV, TTOTDEV and HTOTDEV equal their published definitions",
     "For every series, rate and averaging factor, mtotdev() is the root mean, over all N-3m+1 subsequences of 3m phase points, of the modified Allan "
     "terms of the half-average-detrended subsequence extended to 9m points by even reflection (divided by 2 tau^2), htotdev() is the analogous "
     "statistic (divided by 6) on fractional frequency and equals ohdev() at m=1, and ttotdev() is tau/sqrt(3) times mtotdev(). "
     "The reported n is the number of subsequences (of Hadamard terms for htotdev at m=1), errors are deviation/sqrt(n), and only averaging factors not above a third of "
     "the series length are reported.",
     ["inputs", "configurations"],
     "all real-valued phase/frequency vectors, positive rates and averaging factors (bounded)",
     FIX + "these slow functions are tested on very few averaging factors, so odd/even m and boundary m are barely covered.",
     [A], [("calc_mtotdev_phase", A), ("calc_htotdev_freq", A), ("ttotdev", A)], ["mtotdev()", "ttotdev()", "htotdev()"])

prop("C06", "PDEV and THEO1 equal their published definitions",
     "For every phase series, rate and averaging factor m, pdev() equals oadev() at m=1 and otherwise "
     "sqrt( 72/((N-2m) m^4 tau^2) * sum_i [ sum_k ((m-1)/2-k)(x[i+k]-x[i+k+m]) ]^2 ) over the N-2m starting points, and theo1() returns, for each even m only, "
     "sqrt( 1/(0.75 (N-m) tau^2) * sum_i sum_{d=0..m/2-1} 1/(m/2-d) [ (x[i]-x[i-d+m/2]) + (x[i+m]-x[i+d+m/2]) ]^2 ) over the N-m starting points, with "
     "tau = m/rate. The reported n counts the summed terms (N-2m for pdev, (N-m)m/2 for theo1), and the error is deviation/sqrt(number of starting points).",
     ["inputs", "configurations"],
     "all real-valued phase vectors, positive rates and averaging factors (bounded)",
     FIX + "PDEV is tested on one data set and THEO1 on two.",
     [A], [("calc_pdev_phase", A), ("theo1", A)], ["pdev()", "theo1()"])

prop("C07", "MTIE and TIE-rms are the true peak-to-peak and rms time interval errors",
     "For every phase series and averaging factor m, mtie() is the largest peak-to-peak phase excursion over all windows of m+1 consecutive samples "
     "and tierms() is the rms of all N-m phase differences x[i+m]-x[i], both reported with n = N-m. mtie_phase_fast() returns, for k=1..floor(log2 N), the largest "
     "peak-to-peak excursion over all windows of 2^k consecutive samples of the first 2^floor(log2 N) points.",
     ["inputs", "configurations"],
     "all real-valued phase vectors and averaging factors (bounded)",
     "Where the maximum sits (first or last window, at a window edge, ties) depends on the data; the tests compare three recordings, and nothing calls mtie_phase_fast.",
     [A], [("mtie / mtie_rolling_window", A), ("tierms", A), ("mtie_phase_fast", A)], ["mtie()", "tierms()", "mtie_phase_fast()"])

prop("C08", "GRADEV is OADEV restricted to gap-free terms, with correct error bars",
     "For every phase series with any pattern of missing (NaN) samples, gradev() averages exactly those second differences whose three points are all present, reports "
     "their number as n and is not NaN, and equals oadev() when nothing is missing. Its two error values are the distances from the deviation "
     "down to and up to the chi-squared confidence interval at the requested confidence, using the equivalent degrees of freedom of the named noise type "
     "(wp, fp, wf, ff, rf = alpha +2, +1, 0, -1, -2) and the number of valid samples.",
     ["inputs", "configurations"],
     "all gap patterns, all phase values, rates, averaging factors, confidence levels and noise types (bounded)",
     "One test compares one gapped record with the ungapped one under a loose bound and ignores the error bars; there are 2^N gap patterns.",
     [A, "allantools/ci.py"], [("calc_gradev_phase", A), ("gradev", A), ("confidence_interval", "allantools/ci.py")], ["gradev()"])

prop("C09", "GCODEV and the three-cornered hat solve the covariance equations",
     "For every pair of equally long phase series gcodev() squared is the magnitude of the averaged product of the two overlapping second differences divided by 2 tau^2; it is symmetric in "
     "its inputs and equals oadev() when both inputs are the same. The three-cornered hat returns for clock A the square root of "
     "(var_AB + var_CA - var_BC)/2, clipped at zero, at each tau of the chosen statistic, with error deviation/sqrt(n) and the n of the AB series.",
     ["inputs", "configurations"],
     "all triples of phase series, rates, tau selections and statistics (bounded)",
     "The gcodev test never asserts its comparison result and the three-cornered-hat test checks only the tau list.",
     [A], [("calc_gcodev_phase", A), ("three_cornered_hat_phase", A)], ["gcodev()", "three_cornered_hat_phase()"])

prop("C10", "Frequency input and phase input are interchangeable for every statistic",
     "For every fractional-frequency series y and rate, calling any statistic with data_type='freq' gives the same result as calling it with data_type='phase' on the series that "
     "starts at any constant and accumulates y/rate (for mtie and tierms: y minus its mean, because the conversion removes the mean frequency); any other data_type is rejected. Converting frequency to phase gives one more point than the input, starts at 0, removes only the mean frequency, and converting back "
     "returns y minus its mean; leading and trailing NaNs are ignored. Phase in radians is 2*pi*v0 times phase in seconds, and fractional frequency is (f-f0)/f0 with the mean frequency as default f0.",
     ["inputs", "configurations"],
     "all frequency series, rates, statistics and gap runs at the ends (bounded)",
     "Tests use both data types at rate 1 on a few recordings; a wrong rate factor or an off-by-one in the integration is invisible at rate 1 or for some statistics.",
     [A], [("input_to_phase", A), ("frequency2phase", A), ("phase2frequency", A), ("trim_data", A)],
     ["all deviation functions with data_type='freq'", "frequency2phase()", "phase2frequency()", "phase2radians()", "frequency2fractional()"])

prop("C11", "Deviations have the right invariances, scaling and units",
     "For every phase series, adding a constant never changes any statistic, adding a constant frequency offset changes no statistic other than mtie and tierms, and adding a linear frequency drift does not change hdev or "
     "ohdev. Multiplying the phase by any real c multiplies every deviation by |c|; changing the rate by a factor r (same samples, same averaging factors) divides tau by r and multiplies frequency-type deviations by r "
     "while tdev, ttotdev, mtie and tierms stay the same.",
     ["inputs", "configurations"],
     "all phase series, offsets, drifts, scale factors and rates (bounded)",
     "These are relations between pairs of runs over a continuum of inputs; no test compares two related runs.",
     [A], [("all deviation functions", A)], ["all deviation functions"])

prop("C12", "Result tables are aligned, sorted and free of single-sample points",
     "For every statistic, data, rate and tau request, the four returned arrays have equal length, taus are strictly increasing positive multiples of 1/rate below the series length, and every n is at least 2; "
     "if no point survives, the call raises instead of returning an empty table. The row for a given tau does not depend on which other taus were requested, in which order, or how often.",
     ["inputs", "configurations"],
     "all statistics, data, rates and tau lists, with duplicates, disorder, out-of-range and fractional values (bounded)",
     "One test feeds one long list of taus to nine statistics at rate 1 and checks only lengths and n.",
     [A], [("tau_generator", A), ("remove_small_ns", A)], ["all deviation functions", "remove_small_ns()"])

prop("C13", "Tau requests map to the right averaging factors",
     "Every requested tau is mapped to the nearest whole number of samples at the given rate; values that round to less than one sample or to the data length or more (or above the statistic's own limit, or odd ones when even "
     "ones are required) are dropped, the rest are sorted and deduplicated, and tau = m/rate exactly. The keywords 'all', 'octave', 'decade' give every m, powers of two, and 1-2-4 times powers of ten below the data length (octave is also the default for None and []), 'log10' gives about ten "
     "per decade starting at 1, and a zero rate is rejected. Thinning an 'all' list to n per decade returns a strictly increasing subset of it with tau = m/rate, never two points with the same rounded n*log10(m).",
     ["inputs", "configurations"],
     "all real tau values, rates (as floating-point numbers, with rounding error modelled), data lengths and options (bounded)",
     "Tests use rate 1 with N=128, where m equals tau and rounding never matters.",
     [A], [("tau_generator", A), ("tau_reduction", A)], ["tau_generator()", "tau_reduction()"])

prop("C14", "Statistics are pure: inputs untouched, history irrelevant",
     "No statistic, converter, noise-identification or confidence function modifies the arrays or lists passed to it, and the result of a call depends only on its arguments, not on any earlier call with other data, rates or taus.",
     ["inputs", "histories"],
     "all input values and all sequences of two calls on the same function (bounded)",
     "Tests call each function once per loaded data set and never compare the input before and after.",
     [A, "allantools/ci.py", "allantools/dataset.py"], [("np.array copy in tau_generator", A), ("frequency2phase mean removal on a copy", A)], ["all deviation functions", "converters", "autocorr_noise_id()"])

prop("C15", "Real-time statistics equal batch statistics after every sample",
     "For every stream of phase samples, every list of averaging factors and every sample interval, after each added sample the streaming OADEV, OHDEV, TDEV and MDEV equal the batch statistic of all samples so far "
     "for each averaging factor that has enough data, and are 0 before. Adding fractional-frequency samples is the same as adding their running integral (frequency times sample interval, starting at phase 0), and reported taus are averaging factor times sample interval.",
     ["histories", "inputs", "configurations"],
     "all sample streams up to a bounded length, all prefixes, all orders of averaging factors, all sample intervals",
     "Tests stream two recordings at tau0=1 and look only at the final value.",
     ["allantools/realtime.py"], [("update_S recurrences", "allantools/realtime.py"), ("update_S3n", "allantools/realtime.py"), ("add_frequency", "allantools/realtime.py")],
     ["oadev_realtime", "ohdev_realtime", "tdev_realtime"],
     [("S, So, dev", "running sums per averaging factor", "allantools/realtime.py"), ("x", "phase history", "allantools/realtime.py")])

prop("C16", "Automatic averaging factors in real-time mode lose no data",
     "In automatic mode, after each added sample the set of averaging factors is 1 followed by the rounded log-spaced factors m (each at most once, increasing) that fit the samples seen so far (2m+1 samples), and for every listed factor the streamed deviation equals "
     "the batch statistic of all samples so far, including samples that arrived before the factor was added. Deviations, taus and averaging factors always have the same length.",
     ["histories", "inputs", "configurations"],
     "all sample streams up to a bounded length, all prefixes, points-per-decade settings",
     "The auto-mode tests only print values and assert nothing.",
     ["allantools/realtime.py"], [("update_af", "allantools/realtime.py"), ("add_af", "allantools/realtime.py")], ["oadev_realtime", "ohdev_realtime", "tdev_realtime"],
     [("af_idx, af_decade", "position in the log-spaced list of factors", "allantools/realtime.py")])

prop("C17", "Dataset computes and saves exactly what the statistic returned",
     "Dataset.compute(name) returns and stores the result of the named statistic on the stored data, rate, data type and taus, replaces all earlier results, and leaves the stored result and inputs untouched when the name is not an allowed statistic or the computation fails. "
     "write_results() writes one row per tau with the true averaging factor (tau times rate), tau, n, and deviation minus, without and plus half its error (for gradev: minus its lower error, and plus its upper error) in the requested number of significant digits, after a header naming data type, rate and user parameters.",
     ["histories", "inputs", "configurations"],
     "all sequences of set_input/compute/write_results with any data, rates, taus and statistics (bounded)",
     "Tests write files and delete them without reading them; they compute each statistic once at rate 1.",
     ["allantools/dataset.py"], [("Dataset.compute", "allantools/dataset.py"), ("Dataset.write_results", "allantools/dataset.py")], ["Dataset.out", "written file"],
     [("inp/out", "inputs and last results", "allantools/dataset.py")])

prop("C18", "Chi-squared confidence intervals are exact, ordered and scale with the deviation",
     "For every deviation, equivalent degrees of freedom and confidence c from 0.5 up, the confidence interval is [dev*sqrt(edf/q_hi), dev*sqrt(edf/q_lo)] with q_lo and q_hi the chi-squared quantiles at (1-c)/2 and (1+c)/2, so low<=high, it scales in proportion to the deviation and widens "
     "with c. The variant that identifies the noise type first uses the degrees of freedom of the identified noise for the given statistic, averaging factor and number of phase points (one more than the number of frequency points), "
     "and rejects unknown statistics.",
     ["inputs", "configurations"],
     "all deviations, degrees of freedom, confidence levels in [0.5,1), statistics and noise types",
     "Tests check a few intervals at the one-sigma level within a few percent.",
     ["allantools/ci.py"], [("confidence_interval", "allantools/ci.py"), ("confidence_interval_noiseID", "allantools/ci.py")], ["confidence_interval()", "confidence_interval_noiseID()"])

prop("C19", "Simple and total-variance degrees of freedom follow the published tables",
     "For every number of phase points N and averaging factor m in range, edf_simple() equals the NIST SP1065 Table 5 expression for each of the five noise types (N-1 for unknown types), edf_totdev() and edf_mtotdev() equal b*N/m-c with the SP1065 Table 7 and 8 "
     "coefficients (edf_totdev falling back to edf_simple for other noise types).",
     ["inputs", "configurations"],
     "all N, all m, all noise types",
     "Tests use edf_totdev on two recordings with a tolerance and never call edf_simple for most noise types.",
     ["allantools/ci.py"], [("edf_simple", "allantools/ci.py"), ("edf_totdev", "allantools/ci.py"), ("edf_mtotdev", "allantools/ci.py")], ["edf_simple()", "edf_totdev()", "edf_mtotdev()"])

prop("C20", "Greenhall degrees of freedom follow the published algorithm",
     "For every noise type alpha from +2 to -4, difference order d in 1..3 with alpha+2d>1, averaging factor m, length N and estimator type, edf_greenhall() returns a positive number equal to the combined Greenhall-Riley 2003 formulas (case selection, sums, limits and table coefficients), "
     "and it raises only for the documented unsupported white-PM case of too few samples. For fixed other arguments the exact-sum cases never decrease when N grows.",
     ["inputs", "configurations"],
     "all admissible (alpha, d, m, N, overlapping, modified) within bounds, N symbolic",
     "Tests reach the few (alpha, m, N) combinations that occur in the recordings; several table rows and case branches are never executed.",
     ["allantools/ci.py"], [("edf_greenhall", "allantools/ci.py"), ("greenhall_BasicSum/sz/sx/sw", "allantools/ci.py"), ("greenhall_table1/2/3", "allantools/ci.py")], ["edf_greenhall()"])

prop("C21", "Lag-1 noise identification follows the published algorithm",
     "For every series of at least 30 (decimated or averaged) points, autocorr_noise_id() differences the detrended series the smallest number d of times in [dmin,dmax] after which rho=r1/(1+r1)<0.25 (or dmax), and returns alpha = -2(rho+d) (+2 for phase), its rounded integer version, d and rho, with r1 the lag-1 "
     "autocorrelation of the differenced series. Phase is decimated and frequency averaged by the averaging factor first, and phase and frequency are detrended by a quadratic and a line, so the outcome does not depend on scale, offset, frequency offset or (phase) drift; shorter series are rejected.",
     ["inputs", "configurations"],
     "all series of a bounded length, averaging factors, dmin, dmax and data types",
     "Tests check the integer alpha on a few recordings.",
     ["allantools/ci.py"], [("autocorr_noise_id", "allantools/ci.py"), ("lag1_acf", "allantools/ci.py"), ("detrend", "allantools/ci.py")], ["autocorr_noise_id()"])

prop("C22", "B1 and R(n) ratios and their theory values are consistent",
     "For every phase series, averaging factor and rate, R(n) is the squared ratio of MDEV to ADEV at that averaging factor and B1 is the sample variance of the averaged fractional frequency divided by the Allan variance, both independent of scale and rate. The theoretical B1 equals "
     "N(1-N^mu)/(2(N-1)(1-2^mu)) (its limit at mu=0) for every N, and each decision boundary lies between the two neighbouring theory values.",
     ["inputs", "configurations"],
     "all phase series, rates, averaging factors, N and noise types (bounded)",
     "Only example scripts use these functions, always at rate 1.",
     ["allantools/ci.py"], [("rn", "allantools/ci.py"), ("b1", "allantools/ci.py"), ("b1_theory", "allantools/ci.py"), ("rn_theory", "allantools/ci.py"), ("b1_boundary/rn_boundary", "allantools/ci.py")], ["ci.rn()", "ci.b1()", "ci.b1_theory()", "ci.rn_theory()", "ci.*_boundary()"])

prop("C23", "ITU masks equal the recommendations at every tau",
     "For every tau, each TDEV and MTIE mask returns the limit of the corresponding ITU-T table (G.811, G.8272 A/B, G.8272.1) on the segment containing tau, is positive, never decreases inside a segment, and jumps at segment ends by no more than the rounding of the published coefficients (1% of the limit).",
     ["inputs"],
     "all real tau > 0",
     "The mask tests compare nanosecond values with an absolute tolerance of 1e-8, so they accept almost any value.",
     ["allantools/mask.py"], [("prc_*, eprtc_*, prtcA_*, prtcB_*", "allantools/mask.py")], ["allantools.mask functions"])

prop("C24", "Noise generators are the specified linear filters of their random source",
     "For every outcome of the random source, every length and every parameter, white() is sqrt(b0*fs/2) times the normal draws, brown() is the running sum divided by fs of white noise of level 4*pi^2*b_minus2, violet() is fs times the first difference of white noise of level b2/(2 pi)^2, and the Kasdin generator's output is the causal convolution "
     "of normal draws of variance qd with the coefficients h[0]=1, h[k]=h[k-1](k-1-b/2)/k. Every generator (pink() included) returns exactly the requested number of points, draws fresh random numbers on every call, and pink() follows the Voss-McCartney update.",
     ["inputs", "configurations", "histories"],
     "all outcomes of the random source, lengths and parameters (bounded length)",
     "Tests check lengths and a statistical level with wide tolerances for one random seed.",
     ["allantools/noise.py", "allantools/noise_kasdin.py"], [("white/brown/violet/pink/iterpink", "allantools/noise.py"), ("Noise.generateNoise", "allantools/noise_kasdin.py")], ["noise.white()", "noise.brown()", "noise.violet()", "noise.pink()", "Noise.time_series"])

prop("C25", "Predicted noise levels agree with each other and with theory",
     "For every discrete variance qd, sample interval tau0, tau and noise exponent b in {0,-1,-2,-3,-4}, the frequency PSD coefficient equals (2 pi)^2 times the phase PSD coefficient 2 qd (2 pi)^b tau0^(b+1), and the predicted ADEV and MDEV are the square root of the tabulated coefficient times the frequency "
     "PSD coefficient times tau to the tabulated power (the PDEV prefactor likewise, with the coefficients published for the parabolic variance). All predictions are positive, scale as sqrt(qd), and are unchanged in form by generating noise.",
     ["inputs", "configurations"],
     "all positive qd, tau0, tau and all five noise exponents",
     "Tests compare predictions with simulated noise at a few percent to a factor of two for tau0=1.",
     ["allantools/noise_kasdin.py"], [("phase_psd_from_qd", "allantools/noise_kasdin.py"), ("frequency_psd_from_qd", "allantools/noise_kasdin.py"), ("adev_from_qd/mdev_from_qd/pdev_from_qd, c_avar/c_mvar", "allantools/noise_kasdin.py")], ["Noise.adev()", "Noise.mdev()", "Noise.*_from_qd()"])

prop("C26", "Noise synthesis from a piecewise PSD uses the right power at every frequency",
     "For every piecewise power-law PSD, duration and time step, timmer_koenig_from_psd() returns a real series of floor(duration/timestep) points (even or odd) whose spectrum at each non-zero grid frequency is the random draw scaled by sqrt(S_y(f))/(4 pi f) with the coefficients of the segment containing that frequency (segment edges included) "
     "and zero mean; output='freq' is its finite difference divided by the time step. Equal seeds give equal series and invalid arguments are rejected.",
     ["inputs", "configurations"],
     "all PSD segments, lengths and random draws (bounded length and number of segments)",
     "No test calls it.",
     ["allantools/noise.py"], [("timmer_koenig_from_psd", "allantools/noise.py")], ["timmer_koenig_from_psd()"])

prop("C27", "PSD-to-deviation conversion is linear in the PSD and accepts every grid",
     "For every sampled PSD and every positive frequency step (given as step or as frequency vector), psd2allan() returns without error, its squared result is linear in the PSD (so scaling the PSD by c>=0 scales deviations by sqrt(c)), its taus are increasing multiples of the smallest tau (powers of the base, or all of them for a base up to 1) up to half the inverse frequency step rounded to such a multiple, and the squared result equals the "
     "documented transfer-function integral of the interpolated PSD; 'adev' and 'mdev' use transfer exponents 1 and 2. Non-array PSDs and other frequency types are rejected.",
     ["inputs", "configurations"],
     "all PSD samples (bounded number), frequency steps as floating-point numbers, both kinds and bases",
     "The only test draws a figure and asserts nothing.",
     [A], [("psd2allan", A)], ["psd2allan()"])

prop("C28", "Deviation-to-PSD reconstruction is continuous and inverts the Allan integral",
     "For every positive deviation curve with increasing taus, the reconstructed piecewise power-law PSD has one segment per distinct log-log slope mu with exponent -mu-1, each segment's coefficient reproduces the deviation on that segment through the Allan/Hadamard integral, and neighbouring segments agree at every "
     "returned break frequency; slopes outside the convergence range and malformed inputs are rejected. Converting a piecewise PSD to ADEV integrates each segment exactly over its own frequency range, covers all frequencies once, and is linear in the coefficients.",
     ["inputs", "configurations"],
     "all deviation values, tau spacings and slopes (bounded number of nodes)",
     "No test calls either function.",
     [A], [("adev2psd_piecewise_approx", A), ("psd_piecewise_to_adev", A)], ["adev2psd_piecewise_approx()", "psd_piecewise_to_adev()"])

prop("C29", "The plot shows exactly the computed results",
     "For every computed dataset, Plot.plot() draws the dataset's taus against its deviations on logarithmic axes, with the dataset's errors when errorbars are requested, passes extra keyword arguments through, labels the axes with tau and the statistic's name, and switches the grid as requested, without changing the dataset.",
     ["inputs", "histories", "configurations"],
     "all datasets, options and sequences of plot calls (bounded)",
     "The test draws one dataset and asserts nothing.",
     ["allantools/plot.py"], [("Plot.plot", "allantools/plot.py")], ["Plot.ax"])

prop("C30", "Integer-typed data give the same result as the same values in floating point",
     "For every phase array of any signed or unsigned machine-integer type, every statistic returns the same deviations as for the same values given as floating-point numbers: no intermediate result wraps around.",
     ["inputs", "configurations"],
     "all values of 8- to 64-bit signed and unsigned integer arrays (bounded length)",
     "All recordings are loaded as floating-point numbers.",
     [A], [("array conversion in tau_generator", A), ("tierms/mtie differences", A)], ["all deviation functions"])

prop("C31", "Power spectra of time series are correctly scaled and labelled",
     "For every real series and sampling rate, numpy_psd() returns the frequencies k*fs/N and at each of them 2/(N fs) times the squared magnitude of the discrete Fourier transform, for even and odd N; scipy_psd() returns Welch's one-sided estimate with half-overlapping Hann-windowed segments of floor(N/nr_segments) points.",
     ["inputs", "configurations"],
     "all series of a bounded length (even and odd) and all positive rates",
     "No test calls it.",
     ["allantools/noise.py"], [("numpy_psd", "allantools/noise.py"), ("scipy_psd", "allantools/noise.py")], ["noise.numpy_psd()", "noise.scipy_psd()"])

prop("C32", "Results depend only on the values, not on container or memory layout",
     "For every series of double-precision numbers, every statistic, converter, noise-identification helper, Dataset and real-time object returns the same result whether the same values are given as list, tuple or array, contiguous, strided, reversed, as a column of a matrix, as part of a longer array or read-only; whether taus and averaging factors (at least one) and short "
     "parameter vectors are lists, tuples or arrays, of integers or floats; and whether the rate is a Python or NumPy number, integer or float.",
     ["inputs", "configurations"],
     "all data values (bounded length) for each container, memory layout and number type",
     "Tests load every series into one fresh contiguous float array with float taus and rates.",
     [A], [("tau_generator, input_to_phase", A), ("calc_gradev_phase/trim_data", A), ("rolling windows of mtie/tierms/theo1", A), ("Dataset.set_input", "allantools/dataset.py"), ("afs/taus conversion", "allantools/realtime.py")],
     ["all deviation functions", "converters", "Dataset", "realtime objects"])

prop("C33", "Invalid requests are refused, never answered with numbers",
     "For every data series: a data type other than 'phase' or 'freq', a zero rate, an unknown taus keyword, or averaging times that all lie outside the record make every statistic (and the three-cornered hat) raise an error instead of returning a table; Dataset.compute() refuses names outside its documented list and leaves an earlier result as it was; "
     "degrees-of-freedom functions refuse noise types outside their published tables, confidence intervals other deviation types and records too short to identify the noise, timmer_koenig_from_psd() the argument errors it documents, psd2allan() non-array PSDs and other frequency types.",
     ["inputs", "configurations"],
     "all data values (bounded length), rates and averaging times for each class of invalid request",
     "Tests of errors cover a few functions with one value each.",
     [A], [("input_to_phase, tau_generator", A), ("edf_greenhall, confidence_interval_noiseID, autocorr_noise_id", "allantools/ci.py"), ("Dataset.compute", "allantools/dataset.py"), ("timmer_koenig_from_psd", "allantools/noise.py")],
     ["all deviation functions", "ci functions", "Dataset", "noise synthesis"])

prop("C34", "Objects never influence each other, whatever the order of operations",
     "For every interleaving of operations on several objects - real-time estimators (with default arguments, automatic factors or one shared list of averaging factors), Datasets, Plots, Noise generators and pink-noise iterators - each object ends with the results, settings, curves and series it would have alone; "
     "reading, saving or plotting results changes none of them; files and figures that are saved contain only their own object's parameters and curves; the caller's lists stay unchanged.",
     ["inputs", "histories", "schedules", "configurations"],
     "all interleavings of a bounded number of operations on two or three objects, all data values",
     "Every test uses one object at a time.",
     ["allantools/realtime.py", "allantools/dataset.py", "allantools/plot.py", "allantools/noise.py", "allantools/noise_kasdin.py"],
     [("dev_realtime state", "allantools/realtime.py"), ("Dataset.inp/out", "allantools/dataset.py"), ("Plot.fig/ax", "allantools/plot.py"), ("Noise, iterpink", "allantools/noise.py")],
     ["real-time objects", "Dataset", "Plot", "Noise", "iterpink()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fp.write(json.dumps(p) + "\n")
print(len(P), "properties")
