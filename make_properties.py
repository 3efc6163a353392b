"""Writes properties.jsonl (one source of truth for titles / statements)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    if len(title) > 80: raise SystemExit(title)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/SALib/"
p("C01", "Saltelli/Sobol samples have the exact A, A_B, B_A, B cross-sampling layout",
  "For every valid problem, N, skip and order option, both Saltelli-type samplers return for each base point, in order, the row A, then A with one factor (or one whole group, groups in order of first appearance) replaced from B, then - only with second order - B with one factor/group replaced from A, then B: N(D+2) or N(2D+2) rows, D counting factors or groups. The A and B points are the first and last halves of one base sequence in twice as many dimensions as there are parameters: the unscrambled Sobol' sequence after the requested (or documented default) skip for `saltelli`, and SciPy's Sobol' engine with the requested scrambling, seed and skip for `sobol`. Grouping, order option, bounds and distributions never change the base points themselves.",
  ["inputs", "configurations"], "all problems (1..60 parameters, any grouping incl. non-contiguous), N >= 1 (also non powers of two), skip values, order, scramble, seeds",
  "Tests compare three tiny fixed matrices and row counts; layouts with several non-contiguous groups, odd N, custom skip, many parameters, or grouped first-order designs are not sampled.",
  [S+"sample/saltelli.py", S+"sample/sobol.py", S+"util/__init__.py"],
  [("cross-sampling loops", S+"sample/saltelli.py:sample"), ("cross-sampling loops", S+"sample/sobol.py:sample"), ("group matrix", S+"util/__init__.py:compute_groups_matrix")],
  ["returned sample matrix"])
p("C02", "The built-in Sobol generator yields the Joe-Kuo sequence in every dimension",
  "For every supported number of points and dimensions, the built-in unscrambled Sobol' generator returns exactly the Joe-Kuo (2008, new-joe-kuo-6) Sobol' sequence in Gray-code order starting at the origin; each result is a prefix of every longer or wider one. Consequently each aligned block of 2^k consecutive points puts exactly one point in each of the 2^k equal strata of every dimension, and too many dimensions raise an error instead of returning a wrong sequence.",
  ["inputs"], "all (N, D) with D up to the 21201 supported dimensions and N up to the tens of thousands",
  "Tests only check a few rows in a handful of dimensions; a wrong entry in the 21201-row direction table, or a recurrence error visible only past a polynomial's degree, is unseen.",
  [S+"sample/sobol_sequence.py", S+"sample/directions.py"],
  [("direction-number recurrence and Gray-code update", S+"sample/sobol_sequence.py:sample"), ("direction table", S+"sample/directions.py")])
p("C03", "Samples follow the declared bounds and distributions via exact quantile maps",
  "For every sampler, each returned column is the image of the design the same call yields for the unit problem (same names, groups, seed; all bounds [0,1]) under the quantile function of that parameter's declared distribution: uniform, log-uniform, triangular (including the deprecated two-value form), normal, truncated normal (lower, upper, mean, sd), lognormal (ln-space) or Weibull (shape, scale, optional location). Hence ranks are preserved, samples never leave a bounded distribution's support, and each column depends on its own parameter's entry only. Illegal distribution parameters, unknown distribution names, mismatched list lengths and non-increasing uniform bounds raise ValueError.",
  ["inputs", "configurations"], "all samplers x all distributions x bounds of any sign and magnitude x parameter positions",
  "Tests check one or two distribution specs through scale_samples and the saltelli sampler; combinations of sampler, position, negative or tiny bounds, non-zero locations are not covered.",
  [S+"util/__init__.py", S+"sample/"],
  [("uniform scaling", S+"util/__init__.py:_scale_samples"), ("quantile scaling", S+"util/__init__.py:_nonuniform_scale_samples"), ("call from each sampler", S+"sample/*.py")])
p("C04", "Latin hypercube samples put exactly one point in every stratum of every factor",
  "For every N >= 1, every number of parameters and every seed, the LHS sampler returns an N x D matrix in which each parameter has exactly one point in each of its N equal-probability strata (of its declared distribution). Parameters in the same group share the same stratum and position within the stratum in every row, while different groups (or ungrouped parameters) are independently and uniformly permuted and jittered.",
  ["inputs", "configurations"], "all N, D, groupings and seeds",
  "Tests check a few seeds with 1-2 parameters; stratification must hold for every N (including rounding of 1/N), column and grouping, and uniformity is statistical.",
  [S+"sample/latin.py"], [("stratified draw and shuffle", S+"sample/latin.py:sample")])
p("C05", "Morris trajectories change each factor or group once by the exact level step",
  "For every number of levels, grouping and seed, the (non-optimised) Morris sampler returns N consecutive trajectories of G+1 points (G = factors or groups) in which each consecutive pair differs in exactly the members of one factor/group, every factor/group moves exactly once per trajectory, and every move is +-p/(2(p-1)) of the (unit) range with group members free to move in opposite directions. All points lie on the p-level grid inside the bounds, and start levels, directions and move orders are each drawn uniformly.",
  ["inputs", "configurations"], "all D, levels p (even), groupings, N and seeds, incl. statistical uniformity over many trajectories",
  "Tests check shapes and a few hand-built matrices; the one-at-a-time/grid/step contract has to hold for every trajectory drawn.",
  [S+"sample/morris/morris.py", S+"util/__init__.py"],
  [("trajectory construction", S+"sample/morris/morris.py"), ("step size", S+"util/__init__.py:_compute_delta")])
p("C06", "Optimised Morris designs pick distinct whole trajectories of maximal spread",
  "With `optimal_trajectories=k`, the Morris sampler returns exactly k distinct whole, unaltered trajectories out of the N it would return for the same seed without optimisation. With local optimisation off, the chosen set attains the maximum (over all k-subsets) of the root sum of squared pairwise trajectory distances; the local search returns the best set along its documented path (Ruano et al.: for sizes 2..k, best pair grown one trajectory at a time), never worse than growing the best pair greedily. A `k` that is not an integer in 2..N-1, or brute force on more than 10 trajectories, is rejected with ValueError.",
  ["inputs", "configurations"], "all N, k, D, groupings, levels and seeds small enough to enumerate every k-subset",
  "Tests use one hand-made input set with a known best combination; optimality must hold over all pools, with ties and groups.",
  [S+"sample/morris/brute.py", S+"sample/morris/local.py", S+"sample/morris/strategy.py", S+"sample/morris/morris.py"],
  [("distance matrix", S+"sample/morris/strategy.py"), ("exhaustive search", S+"sample/morris/brute.py"), ("local search", S+"sample/morris/local.py")])
p("C07", "The eFAST sampler draws the documented search curve with the right frequencies",
  "For every N > 4M^2, M, D and seed, the eFAST sampler returns D consecutive blocks of N rows; in block i, parameter i oscillates at the fundamental frequency floor((N-1)/(2M)) and the others at the complementary frequencies (spread linearly from 1 to floor(omega/2M), or cycled through that range when there are too many parameters), each row being 1/2 + arcsin(sin(omega_j s_k + phi_i))/pi with s_k = 2 pi k/N, scaled to the parameter's distribution. The phase phi_i is common to all parameters of one block, and uniformly and independently drawn per block from the seed. N <= 4M^2 raises ValueError.",
  ["inputs", "configurations"], "all N, M, D and seeds, phases recovered from the sample itself",
  "Regression tests only see one N/M/D through indices rounded to two digits; the cycling branch (many parameters), other M and phase independence are untested.",
  [S+"sample/fast_sampler.py"], [("frequency assignment and curve", S+"sample/fast_sampler.py:sample")])
p("C08", "Finite-difference samples step one factor at a time from Sobol' base points",
  "For every problem, N, step and skip, the finite-difference sampler returns N blocks of D+1 rows: a base point (the scaled unscrambled Sobol' sequence after the skip) followed by D rows that equal the base point except in one parameter each, in order, moved by the relative step of its value and clipped to the support of that parameter's distribution. With uniform bounds every row stays within the bounds, and the design does not depend on the seed.",
  ["inputs", "configurations"], "all problems with uniform bounds (any sign), N, delta (incl. negative/large, so that clipping occurs), skip values",
  "No unit test looks at the matrix, only at DGSM indices of one model; clipping, negative bounds and non-default skip are never exercised.",
  [S+"sample/finite_diff.py"], [("finite-difference loop", S+"sample/finite_diff.py:sample")])
p("C09", "Fractional factorial designs are orthogonal fold-overs and their effects exact",
  "For every number of parameters (1..512), the fractional factorial sampler returns 2k rows by k columns (k the next power of two), each parameter at its lower or upper bound, half the rows each, with mutually orthogonal +-1 columns, the second half being the mirrored first half (apart from declared padding dummies `dummy_i` appended after the user's parameters, their bounds, groups and distributions). The analysis returns for each parameter the contrast (1/2k) * sum(+-Y), i.e. half of mean(Y at high) - mean(Y at low), and, with second order, for each pair the corresponding product contrast, in the documented pair order: for any multilinear model main effects are unaffected by two-factor interactions, and a dummy the model ignores gets no main effect of its own.",
  ["inputs"], "all D and all multilinear/random models, any bounds",
  "Tests use D = 2, 4, 12 with fixed responses; the exactness is for all D and all outputs.",
  [S+"sample/ff.py", S+"analyze/ff.py"], [("Hadamard contrast and padding", S+"sample/ff.py"), ("main effects, interactions", S+"analyze/ff.py")])
p("C10", "Sobol indices equal their published estimators for any model output",
  "For every output vector of a Saltelli design, S1, ST and S2 returned by Sobol analysis equal the Saltelli-2010/Jansen/Saltelli-2002 estimators computed on the standardised A, B, A_B, B_A outputs (per factor or group, S2 for pairs i<j, NaN elsewhere), with all indices zero for a constant output, whatever the number of factors, groups, order option or number of samples. An output length inconsistent with the declared problem and order raises an error rather than returning indices.",
  ["inputs", "configurations"], "all D, groups, N, orders, and arbitrary (not only model-generated) outputs",
  "Tests check Ishigami at two decimals; an index swapped or a block misaligned for particular D, group layout or order is not visible.",
  [S+"analyze/sobol.py"], [("separate_output_values / first_order / total_order / second_order", S+"analyze/sobol.py")])
p("C11", "Morris measures equal the elementary-effect statistics of the given design",
  "For every Morris design (optimised or not, grouped or not, any levels and bounds) and every output vector, mu, mu_star and sigma are the mean, mean of absolute values and sample standard deviation (ddof 1) of the elementary effects - output change along the move divided by the signed unit-grid step - of each factor; for groups, mu_star is the mean over the members of the absolute effects, mu that of the signed effects, and sigma is undefined (NaN). With `scaled=True` each effect is the output change divided by the input change, times std(x)/std(y) of its trajectory (zero when y does not vary). Results are in order of factor names, or unique group names in order of first appearance. Outputs that are not whole trajectories raise ValueError.",
  ["inputs", "configurations"], "all designs produced by the sampler, arbitrary outputs, levels, bounds, groups",
  "Tests check fixed small designs; the alignment of effects with factors and signs must hold for each design.",
  [S+"analyze/morris.py"], [("elementary effects", S+"analyze/morris.py")])
p("C12", "eFAST and RBD-FAST indices equal their spectral definitions for any output",
  "For every output vector, eFAST S1/ST of parameter i are the share of the block's spectral variance in the first M harmonics of the fundamental frequency, and one minus the share below half the fundamental, whatever the block length, M and D. RBD-FAST S1 is the share of the first M harmonics of the spectrum after re-ordering outputs by the documented triangle-wave sort of each input (odd ranks ascending, even ranks descending), with the documented bias correction 2M/N, independent of the row order of the (X, Y) pairs for untied inputs. An output length that is not a multiple of D raises ValueError in eFAST.",
  ["inputs", "configurations"], "all N, M, D and arbitrary outputs/inputs",
  "Regression tests check Ishigami at 1-2 digits with M=4 or 10 only.",
  [S+"analyze/fast.py", S+"analyze/rbd_fast.py"], [("compute_orders", S+"analyze/fast.py"), ("permute_outputs / compute_first_order", S+"analyze/rbd_fast.py")])
p("C13", "Delta moment-independent analysis equals its partition-based definition",
  "For every input/output sample (including ties and arbitrary scales), delta analysis works on resamples of the rows drawn with replacement from the seed - uniformly for 'raw' and S1, in equal shares over the (merged) bins of the input for 'balanced', half from x<=0 and half from x>0 for 'step' - ranks the input into M equal-count classes (M the documented function of the resample size), and computes d, the class-weighted half L1 distance between Gaussian kernel densities (Silverman, 100-point grid over the range of Y) of all and of the class outputs. delta is the mean over resamples of the bias-reduced 2*d - d_b, S1 the variance of class means over the variance of Y, and each half-width the normal quantile times the (ddof 1) standard deviation over the resamples. 'raw' and S1 are unchanged by increasing maps of an input and all by positive affine maps of Y; `method` selects the measures returned; a requested bootstrap file holds, per parameter and mode, the input values of the resample behind d; a parameter for which estimation fails is NaN with a note, and a note tells when raw and balanced delta differ by more than 0.1; invalid levels, sizes, methods or reserved names are rejected.",
  ["inputs", "configurations"], "all sample sizes, tied and continuous inputs, outputs, resample counts, methods",
  "Tests compare Ishigami/linear model values at 1-2 digits with one class count; class boundaries, ties, and other N are not exercised.",
  [S+"analyze/delta.py"], [("calc_delta / bias_reduced_delta / sobol_first", S+"analyze/delta.py")])
p("C14", "DGSM equals the derivative-based measures computed from the sample given",
  "For every finite-difference design on uniform bounds and every output vector, DGSM returns per parameter vi = mean((dY/dX)^2), vi_std = its standard deviation and dgsm = vi * (upper-lower)^2 / (pi^2 Var(Y_base)), with derivatives from the actual steps in the given inputs and Var over base outputs, and dgsm_conf on the scale of dgsm. Sample/output size mismatches raise an error.",
  ["inputs", "configurations"], "all problems with uniform bounds, N, outputs",
  "Tests check Ishigami-like regression at two decimals only.",
  [S+"analyze/dgsm.py"], [("calc_vi_stats / calc_dgsm", S+"analyze/dgsm.py")])
p("C15", "PAWN statistics are Kolmogorov-Smirnov distances over equal-count slices",
  "For every input/output sample and slice count, PAWN returns for each parameter the minimum, mean, median, maximum, coefficient of variation and standard deviation over slices of the two-sample Kolmogorov-Smirnov statistic between the outputs whose inputs lie in the (quantile, half-open, last one closed) slice and all outputs, NaN outputs being ignored. With groups, each value is the mean over the members. Hence all KS-based statistics lie in [0,1], are invariant under strictly increasing maps of Y and under joint row permutation, and depend on each column only for its own parameter.",
  ["inputs", "configurations"], "all N, D, slice counts, tied/discrete inputs, outputs",
  "Regression tests compare one model with one slice count; slice edges for other slice counts, ties and row orders are not exercised.",
  [S+"analyze/pawn.py"], [("slicing and ks_2samp", S+"analyze/pawn.py:analyze")])
p("C16", "Regional sensitivity analysis compares the right behavioural and other sets",
  "For every input/output sample, bin count and target, RSA splits rows into those whose X (target Y: Y) lies inside the quantile bin and the rest, and reports per bin and parameter the two-sample Cramer-von Mises statistic between the outputs (target Y: inputs) of the two sets, NaN when one of the sets is empty or the outputs are constant. With groups, values are the mean over the members. The result has one row per bin and one column per parameter (or group) in order of names, invariant under joint row permutation and increasing maps.",
  ["inputs", "configurations"], "all N, D, bins, targets, outputs",
  "Tests cover a single Ishigami sample with default bins; bin edges, other bin counts, and group handling are not.",
  [S+"analyze/rsa.py"], [("rsa / bin loop", S+"analyze/rsa.py")])
p("C17", "Discrepancy indices are normalised L2 discrepancies of each input-output plane",
  "For every sample and supported method (WD, CD, MD, L2-star), discrepancy analysis scales inputs by bounds and outputs to their range, computes the 2-D discrepancy of each (parameter, output) plane and reports each value relative to the sum over parameters; with groups, each group gets the mean over its members. Ungrouped values are therefore non-negative, sum to one, do not depend on the units of X or Y, and follow their parameter when parameters are reordered; samples outside the bounds raise an error.",
  ["inputs", "configurations"], "all samples, methods, bounds, output scales",
  "Tests compare two fixed values.",
  [S+"analyze/discrepancy.py"], [("analyze", S+"analyze/discrepancy.py")])
p("C18", "HDMR analysis decomposes output variance consistently with a least-squares model",
  "For every valid sample and setting (order, B-spline intervals, bootstrap size, regularisation), HDMR fits, on each bootstrap subset of rows, first-order terms by ridge-regularised cubic B-splines with backfitting and higher orders on the residuals, and returns for each component term, in the documented order, S = Sa + Sb with Sa = var(term)/V, Sb = cov(term, other terms)/V and S = cov(term, Y)/V averaged over the bootstraps; ST of a parameter is the sum of S over all terms containing it; widths are normal quantile times the standard deviation over bootstraps; `select` counts the bootstraps in which the F-test kept the term. The attached emulator evaluates the same expansion on training and on new inputs and reproduces training outputs as well as its reported RMSE says. Additive models recover their variance shares; invalid settings raise RuntimeError; names follow the problem.",
  ["inputs", "configurations"], "all sample sizes, D, orders, K, m, lambda and outputs",
  "Tests check setting errors and one 2-digit regression.",
  [S+"analyze/hdmr.py"], [("backfitting, ANCOVA, finalisation", S+"analyze/hdmr.py")])
p("C19", "Enhanced HDMR decomposes variance over polynomials orthonormal on the sample",
  "For every valid sample and setting, enhanced HDMR builds for each parameter polynomials that are orthonormal over the sample and, for interactions, either their products or (extended base) products joined with the lower-order polynomials; with the extended base the coefficients are the least-squares solution of least violation of hierarchical orthogonality, otherwise a ridge solution refined by backfitting. For each term, in documented order, it returns Sa, Sb and S = Sa + Sb averaged over the bootstrap subsets, ST of a parameter as the sum of S over the terms containing it, confidence widths over the bootstraps, and the percentage of bootstraps in which the F-test found the term significant. The emulator evaluates the same expansion on training and on new inputs. Labels follow the problem's names, whose entries are left alone; invalid settings are rejected.",
  ["inputs", "configurations"], "all sample sizes, D, orders, polynomial orders, subset sizes, correlated or independent inputs, outputs",
  "Tests check setting errors and one example.",
  [S+"analyze/enhanced_hdmr.py"], [("orthonormal base, solution, indices, emulator", S+"analyze/enhanced_hdmr.py")])
p("C20", "Same seed, same result - for every sampler and analyzer, and nothing global",
  "For every sampler and analyzer that takes a seed, two calls with equal arguments and equal seed (any integer including 0, and for those that accept them equal-state Generators) return identical results - in the same process, after arbitrary other use of NumPy's or Python's random numbers, and in a fresh process - and different seeds give different draws, as do successive calls with one Generator. A seeded call never depends on the global random state, and samplers neither read nor alter it.",
  ["inputs", "configurations", "histories"], "all seeded entry points x seed kinds (0, small, large, Generator) x interleaved other RNG use x processes",
  "Tests check one or two seeds for a few methods, never 0, interleavings, or global state.",
  [S+"sample/", S+"analyze/", S+"util/util_funcs.py"], [("handle_seed", S+"util/util_funcs.py"), ("seed handling in analyze functions", S+"analyze/*.py")])
p("C21", "Sampling and analysis never modify the caller's data",
  "No analysis changes the input or output arrays or any entry of the problem passed to it, and no sampler changes the lists of names, bounds, distributions or groups in the problem (the documented padding of the problem by the fractional factorial sampler and bookkeeping entries such as `sample_scaled` or default `groups` excepted); returned samples and indices never alias the caller's arrays. Repeating a call, or running any other samplings and analyses in between, therefore gives the same result as running it alone.",
  ["histories", "inputs"], "all samplers/analyzers, in any order, on shared problem and arrays, incl. read-only, Fortran-ordered and strided arrays",
  "Tests call each method once on fresh data.",
  [S+"sample/", S+"analyze/", S+"util/"], [("copying before in-place arithmetic", S+"analyze/*.py")])
p("C22", "Parallel execution returns exactly what serial execution returns",
  "For every number of processors (including more than there are rows, tasks or outputs) and any completion order of the workers, parallel and distributed model evaluation return outputs in sample order, of the same shape and type as serial evaluation, with every extra argument forwarded; parallel Sobol analysis equals the serial analysis with the same seed; and parallel analysis of several outputs equals the serial one, output by output. A worker failure surfaces as an error and never as missing or shifted results.",
  ["schedules", "configurations", "inputs", "fault_sequences"], "processor counts 1..12, sample sizes, outputs shapes, random worker delays and failures",
  "Tests use one or two processor counts on one model and compare loosely, without delays.",
  [S+"util/problem.py", S+"analyze/sobol.py"], [("evaluate_parallel / analyze_parallel / _collect_results", S+"util/problem.py"), ("sobol parallel tasks", S+"analyze/sobol.py")])
p("C23", "ProblemSpec always holds mutually consistent samples, results and analysis",
  "After any sequence of ProblemSpec operations (sampling, setting samples/results, evaluation, analysis, copying, failed calls), the stored samples, results and analysis belong together: results have one row per current sample row and equal the model on those samples, an analysis is the one computed from the current samples and results, and replacing samples or results discards what was derived from the old ones. The chained interface gives exactly the values of the corresponding direct function calls with all positional and keyword arguments passed on, per output for multi-output models under the declared output names; invalid states (wrong number of columns, rows or names, analysis without samples or results, a single group) are rejected; a failed call leaves a state from which work can continue, and a copy is independent of the original. Printing the specification and converting it to DataFrames show the sizes and names it holds and the tables of each output, under its name and in the declared order.",
  ["histories", "inputs"], "random operation sequences checked step by step against an explicit model of the object",
  "Tests walk a few fixed happy-path chains.",
  [S+"util/problem.py"], [("setters, evaluate, analyze", S+"util/problem.py:ProblemSpec")],
  None, [("_samples/_results/_analysis", "current sample, output and result set", S+"util/problem.py")])
p("C24", "DataFrames label every index with the right parameter, group or pair",
  "For every analysis result, converting to DataFrame(s) shows each number of the result under the name of the parameter, group, pair (or bin/term) it was computed for, with all documented columns and no row lost or duplicated, for any names (also non-alphabetical, numeric-like or long), grouped or not. Result vectors have one entry per parameter, or one per group in order of first appearance for the methods that analyse groups. With `print_to_console`, the printed report shows the same labels and numbers, all of them whatever the size of the table and of the terminal. Copied, deep-copied and pickled results give the same DataFrames.",
  ["inputs", "configurations"], "all analyzers x names x groupings x orders",
  "Tests check shapes and sorted fixed names for a few analyzers.",
  [S+"util/results.py", S+"analyze/"], [("ResultDict.to_df", S+"util/results.py"), ("per-method to_df", S+"analyze/*.py")])
p("C25", "Parameter files are read back as exactly the problem they describe",
  "Reading a parameter file returns the names, bounds (exact floats), groups and distributions written in it, row by row, for any supported delimiter, given or detected, any number of rows and any mix of three, four or five columns; comment rows (anywhere) and blank lines are skipped, `NA`, blank or missing groups default to the parameter's own name and missing distributions to uniform, groups are None when every parameter has its own name as its group, and distributions are None when all are uniform. Exactly one group over all parameters and unparsable bounds raise ValueError.",
  ["inputs"], "random problems (names, bounds in any float notation, groups, dists, delimiters, comments, file length over the sniffing window)",
  "Tests use six small files.",
  [S+"util/util_funcs.py"], [("read_param_file", S+"util/util_funcs.py")])
p("C26", "The command line produces exactly what the Python API produces",
  "For every sampling and analysis method, the command-line interface run on a parameter file (and input/output files) writes or prints the same numbers as the API called with the corresponding arguments, with every documented option (samples, seed, precision, delimiter, column, orders, resamples, confidence level, levels, bins...) honoured at any value. Methods listed by the CLI are exactly those the package offers.",
  ["inputs", "configurations"], "all methods x options x seeds x delimiters",
  "Tests run one command line per method with one option set.",
  [S+"scripts/salib.py", S+"sample/common_args.py", S+"analyze/common_args.py", S+"sample/", S+"analyze/"], [("cli_parse / cli_action", S+"sample/*.py, analyze/*.py")])
p("C27", "Samples, outputs and problem definitions that do not fit together are rejected",
  "Every analyzer raises an exception instead of returning indices when inputs and outputs have different numbers of rows (rows missing, surplus or whole trajectories/blocks missing or repeated), when the number of outputs cannot belong to the design of the method (Sobol, Morris, eFAST, DGSM, fractional factorial), when outputs come in several columns (a single column gives the indices of the flat outputs or is rejected) or when the inputs have fewer columns than the problem has parameters; every sampler raises when bounds or declared distributions (for group-aware samplers and PAWN, RSA, discrepancy and Morris analysis also the group list) have another length than the parameters (one single bound without distributions, shared by all parameters, is allowed). Consistent arguments are accepted and give one index per parameter or group. Fractional factorial analysis uses only outputs; its inputs are not compared.",
  ["inputs", "configurations"], "all analyzers and samplers x sizes x kinds and amounts of mismatch",
  "Tests check a few wrong sizes of single methods; silent acceptance shows up only for particular mismatches.",
  [S+"analyze/", S+"sample/", S+"util/__init__.py", S+"util/util_funcs.py"], [("size checks", S+"analyze/*.py"), ("scale_samples / _check_groups", S+"util/")])
p("C28", "Indices are equivariant under relabelling and invariant under units of X and Y",
  "For every analyzer, permuting the parameters consistently in problem, inputs and (where blocks belong to parameters) outputs permutes the indices accordingly, and renaming parameters changes labels only. Shifting or rescaling Y by a positive factor leaves every normalised index unchanged and scales the unnormalised ones (Morris effects, factorial effects, derivative measures) by the factor or its square; re-expressing X and its bounds in other units by an affine map does likewise. Joint permutation of the rows of X and Y never matters to the given-data methods, nor that of whole trajectories or base-point blocks to the others. (Resampled estimates and iterative fits: up to resampling noise and stopping tolerance; the published Sobol' pair estimator is that of the pair in listed order; the factorial design is redrawn for the new order.)",
  ["inputs", "configurations"], "all analyzers x permutations x affine maps x row permutations",
  "No test relates two analyses.",
  [S+"analyze/"], [("normalisation and indexing in each analyzer", S+"analyze/*.py")])
p("C29", "Built-in test functions agree with their published formulas and analytic indices",
  "For every input row, Ishigami (any A, B), Sobol-G (any a, delta, alpha), the linear models and Oakley-O'Hagan evaluate to their published formula, independently per row and without touching the inputs; Sobol-G rejects values outside [0,1], shifts outside [0,1], curvatures not above zero (ValueError) and non-array arguments (TypeError), and its analytic first/total indices equal the variances of that function. The lake problem follows X + a + X^q/(1+X^q) - bX + eps, simulated from zero with lognormal inflows of the given mean and standard deviation, and reports the largest state, the discounted utility and the share of simulated states below the critical threshold (smallest positive root of x^q/(1+x^q) = bx).",
  ["inputs"], "all inputs in the domain, all parameter vectors",
  "Tests check a handful of points and one parameter vector.",
  [S+"test_functions/"], [("evaluate / analytic indices", S+"test_functions/*.py")])
p("C30", "Reported confidence half-widths are bootstrap ones at the requested level",
  "For every analyzer with bootstrap confidence (Sobol, Morris, eFAST, RBD-FAST, delta, DGSM), the reported half-width is z((1+c)/2) times the standard deviation of the index over resamples of the same rows it was computed from, so it is non-negative, scales exactly with the normal quantile of the confidence level c for a fixed seed, never changes the index itself, agrees with an independent bootstrap up to resampling noise, and is zero whenever every resample gives the same index. A confidence level outside (0,1) raises an error.",
  ["inputs", "configurations"], "all methods x confidence levels x resample counts x outputs",
  "Tests check that widths exist or one regression value.",
  [S+"analyze/"], [("bootstrap code in each analyzer", S+"analyze/*.py")])
p("C31", "Sample-evaluate-analyze pipelines converge to analytically known indices",
  "For models with analytically known indices (Ishigami with any parameters, Sobol-G with any a, linear, and sums of products of functions of the input quantiles, with any bounds, declared distributions or groupings of the inputs), running a method's sampler, the model and the analyzer - as functions or chained on a ProblemSpec - gives estimates within sampling error of the exact value for every parameter, group and pair: Sobol S1/ST/S2 and group indices (Saltelli and Sobol samplers; zero total effect of unused parameters), eFAST and RBD-FAST indices (additive models beyond three parameters for eFAST), delta, mu/mu_star/sigma of Morris including groups and optimised designs, DGSM, PAWN statistics, HDMR and enhanced HDMR term indices, exact fractional factorial main effects; RSA and discrepancy rank the deciding parameter first. Sobol errors are small at large N.",
  ["inputs", "configurations"], "random models from analytic families x all sampler/analyzer pairs x groups x distributions",
  "Regression tests use a single model (Ishigami) per method.",
  [S+"sample/", S+"analyze/", S+"util/problem.py"], [("sampler/analyzer agreement on layout", S+"sample/*.py, analyze/*.py")])
p("C32", "Plots draw exactly the numbers of the result they are given",
  "For every analysis result, single or multi-output, bar plots (plot() of a result or ProblemSpec, plotting.bar) show one bar per index and parameter (or group, pair, term, bin) with the bar's height equal to the index, its error bar equal to the confidence half-width (none where the index has none) and its label that of the entry; Morris bar plots order the parameters by the requested measure and put each mu_star bar with its width at its own label; the covariance plot shows each parameter (or group) at (mu_star, sigma) - at (mu_star, mu_star_conf) when sigma is not defined for groups; sample histograms count each parameter's own column, for any number of parameters; RSA and HDMR plots show their own curves, emulated and simulated outputs for any number of bins or bootstrap trials, also after emulating new inputs with or without observations; and heatmaps (methods with one value per name: not RSA and enhanced HDMR) show the requested index rows with matching row and column labels, drawn on the axes that were given. Plotting does not alter the result or the caller's other figures.",
  ["inputs"], "random results of any size, names, groups, outputs and sort options",
  "Tests only check that a plotting call returns axes.",
  [S+"plotting/", S+"util/results.py", S+"util/problem.py"], [("bar/morris/heatmap/hdmr", S+"plotting/*.py"), ("ResultDict.plot", S+"util/results.py"), ("ProblemSpec.plot/heatmap", S+"util/problem.py")])
p("C33", "Options left out take their documented values, in the documented order",
  "For every sampler and analyzer, leaving out any subset of the options gives exactly the result of passing their documented values (e.g. 4 levels and local optimisation for Morris, M = 4 for eFAST and 10 for RBD-FAST, 100 resamples at level 0.95, second-order Sobol' indices, 10 PAWN slides, 20 RSA bins, half of the rows per HDMR bootstrap). Options passed by position in the documented order mean the same as by name, and the methods of a ProblemSpec have the same defaults as the functions. (The number of resamples of DGSM, documented as 1000 and 100, is not claimed.)",
  ["inputs", "configurations"], "all samplers and analyzers x subsets of options x ways of passing them x data",
  "Tests pass options explicitly or compare default runs with stored numbers of one data set.",
  [S+"sample/", S+"analyze/", S+"util/problem.py"], [("sample / analyze signatures", S+"sample/*.py, analyze/*.py"), ("_method_creator", S+"util/problem.py")])
p("C34", "A missing model output is never hidden in the indices",
  "When outputs are missing (NaN), for any number and place of them, every index that depends on one of these outputs - all of them for the methods that normalise by or resample the whole output, those of the parameters stepped from or to the row for Morris and DGSM, those of the parameter's own curve for eFAST - is NaN, or the analysis raises; indices of other parameters, where given, are those of the complete data. PAWN, which omits missing outputs, reports exactly the statistics of the outputs present. (RSA: at least one bin per parameter is NaN; confidence widths and DGSM of untouched parameters are not claimed.)",
  ["inputs"], "all analyzers x positions and numbers of missing outputs x designs",
  "No test analyses missing outputs.",
  [S+"analyze/"], [("reductions over outputs in each analyzer", S+"analyze/*.py")])
p("C35", "Results depend on the values given, not on how they are stored",
  "For every analyzer, test function and ProblemSpec, the same input and output values in any memory layout (Fortran order, strides, reversed or windowed views, read-only), byte order or numeric type (integers, narrow outputs for analyzers included; single precision, and spectra of narrow integers, up to single-precision rounding; Morris analysis takes double precision only) give the same results. A problem held as a ProblemSpec, ordered mapping, with tuples or arrays, integer bounds, extra entries or another order of entries, and options given as NumPy scalars, give the same samples and results as the plain ones.",
  ["inputs", "configurations"], "all analyzers, samplers and test functions x storage forms",
  "Tests pass contiguous double arrays and plain dictionaries only.",
  [S+"analyze/", S+"sample/", S+"test_functions/", S+"util/problem.py"], [("indexing and reductions over arrays", S+"analyze/*.py")])
p("C36", "Calls leave the process around them as it was and do not depend on it",
  "After importing its modules and after every sampling, analysis, DataFrame conversion, plot, test function, parameter file and ProblemSpec call, returning or raising, the state of the process it does not own is unchanged: warning filters and format, NumPy error handling and print options, pandas options, matplotlib settings and existing figures, Python's random generator, working directory, environment, arguments, streams, open files, threads and child processes. Results of seeded calls are the same whatever these settings are, including the state of Python's and NumPy's global random generators. (NumPy's global generator itself is seeded by some analyses by design; the CLI and new figures made by plots are not concerned.)",
  ["configurations","histories"], "all public calls x surrounding settings x returning and failing calls",
  "Tests run in one default environment and look at return values only.",
  [S], [("warnings.filterwarnings / catch_warnings", S+"analyze/*.py"), ("plot functions", S+"plotting/*.py"), ("evaluate_parallel", S+"util/problem.py")])
p("C37", "Calls running in several threads at once give what each gives alone",
  "Seeded samplings, analyses and ProblemSpec runs made concurrently from several threads, of the same or different methods, on shared or own problems and data, under any interleaving, return bitwise what each returns when run alone, and none fails that succeeds alone. Quantities drawn from NumPy's global generator (eFAST and DGSM confidence widths, delta, enhanced HDMR bootstraps) and fractional factorial sampling on a shared problem (padded by design) are not claimed.",
  ["schedules","inputs"], "mixes of 2-8 concurrent calls x interleavings",
  "Tests are single-threaded; a shared buffer, cache or generator shows only under overlap.",
  [S+"sample/", S+"analyze/", S+"util/"], [("module-level state: directions, generators, caches", S+"sample/*.py, analyze/*.py, util/*.py")])
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
    print(len(P))
