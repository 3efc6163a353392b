From dcab0839fde2a83d1eafef2274e39181512f76db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 01/70] fix: validate log-uniform and triangular distribution
 parameters

Illegal log-uniform bounds (lower <= 0, or lower >= upper) and triangular
distributions of zero width silently produced NaN samples, and valid
three-value triangular distributions with a negative upper end were rejected
by a check meant for the two-value format.
---
 src/SALib/util/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 47e73bc..c059ef2 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -187,7 +187,7 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 )
 
             # checking for correct parameters
-            if b1 < 0 or b2 < 0 or b2 >= 1 or loc_start > b1:
+            if b2 < 0 or b2 >= 1 or loc_start >= b1:
                 raise ValueError(
                     """Triangular distribution bound error: Scale must be
                     greater than zero; peak on interval [0,1], triangular
@@ -208,6 +208,11 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 conv_params[:, i] = params[:, i] * (b2 - b1) + b1
 
         elif dists[i] == "logunif":
+            if b1 <= 0 or b1 >= b2:
+                raise ValueError(
+                    """Log-uniform distribution: lower bound must be greater
+                    than zero and less than upper bound"""
+                )
             conv_params[:, i] = sp.stats.loguniform.ppf(params[:, i], a=b1, b=b2)
 
         elif dists[i] == "norm":
-- 
2.43.0


From 01d754ed2e607fcc313b4b2cd4b9e88f53de08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 02/70] fix: pad a copy of names and extend dists in fractional
 factorial sampling

Padding extended the caller's names list in place, so every other problem
sharing that list became inconsistent, and it left dists at its old length,
so sampling a padded problem with distributions always failed.
---
 src/SALib/sample/ff.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index 0938e4a..afd3b9e 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -45,13 +45,15 @@ def extend_bounds(problem):
     num_dummy_variables = num_ff_vars - num_vars
 
     bounds = list(problem["bounds"])
-    names = problem["names"]
+    names = list(problem["names"])
     if num_dummy_variables > 0:
         bounds.extend([[0, 1] for x in range(num_dummy_variables)])
         names.extend(["dummy_" + str(var) for var in range(num_dummy_variables)])
         problem["bounds"] = bounds
         problem["names"] = names
         problem["num_vars"] = num_ff_vars
+        if problem.get("dists"):
+            problem["dists"] = list(problem["dists"]) + ["unif"] * num_dummy_variables
 
     return problem
 
-- 
2.43.0


From c1f682e67369029f68132800a7415b5ce13a4989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 03/70] fix: clip finite-difference steps to the support of the
 distribution

With non-uniform distributions the stepped value was clipped to the raw
entries of bounds (e.g. to [mean, sd] of a normal distribution), so steps
were arbitrary or zero.
---
 src/SALib/sample/finite_diff.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/SALib/sample/finite_diff.py b/src/SALib/sample/finite_diff.py
index 368286f..d1c5a61 100644
--- a/src/SALib/sample/finite_diff.py
+++ b/src/SALib/sample/finite_diff.py
@@ -55,7 +55,7 @@ def sample(
     rng = handle_seed(seed)  # noqa
 
     D = problem["num_vars"]
-    bounds = problem["bounds"]
+    limits = _step_limits(problem)
 
     # Create base sequence - could be any type of sampling
     base_sequence = sobol_sequence.sample(N + skip_values, D)
@@ -73,7 +73,7 @@ def sample(
         index += 1
         for j in range(D):
             temp = np.zeros(D)
-            bnd_j = bounds[j]
+            bnd_j = limits[j]
             temp[j] = base_sequence[i, j] * delta
             dgsm_sequence[index, :] = base_sequence[i, :] + temp
             dgsm_sequence[index, j] = min(dgsm_sequence[index, j], bnd_j[1])
@@ -83,6 +83,32 @@ def sample(
     return dgsm_sequence
 
 
+def _step_limits(problem: Dict) -> list:
+    """Lowest and highest admissible value of each parameter.
+
+    For parameters with a non-uniform distribution the entries of `bounds` are
+    distribution parameters, so the limits are those of its support.
+    """
+    dists = problem.get("dists")
+    if not dists:
+        return problem["bounds"]
+
+    limits = []
+    for dist, bnd in zip(dists, problem["bounds"]):
+        if dist in ("unif", "logunif", "truncnorm"):
+            limits.append((bnd[0], bnd[1]))
+        elif dist == "triang":
+            limits.append((bnd[0], bnd[1]) if len(bnd) == 3 else (0, bnd[0]))
+        elif dist == "weibull":
+            limits.append((bnd[2] if len(bnd) == 3 else 0, np.inf))
+        elif dist == "lognorm":
+            limits.append((0, np.inf))
+        else:
+            limits.append((-np.inf, np.inf))
+
+    return limits
+
+
 def cli_parse(parser):
     """Add method specific options to CLI parser.
 
-- 
2.43.0


From faadf3618b4fbc41dd723aa26beaa862e986b96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 04/70] fix: honour seed=0 in all analyzers and any seed in
 hdmr

A seed of 0 was treated as no seed, and hdmr.analyze created a generator from
its seed but drew its bootstrap from NumPy's global generator.
---
 src/SALib/analyze/delta.py         |  2 +-
 src/SALib/analyze/dgsm.py          |  2 +-
 src/SALib/analyze/enhanced_hdmr.py |  2 +-
 src/SALib/analyze/fast.py          |  2 +-
 src/SALib/analyze/ff.py            |  2 +-
 src/SALib/analyze/hdmr.py          | 12 +++++++-----
 src/SALib/analyze/pawn.py          |  2 +-
 src/SALib/analyze/sobol.py         |  2 +-
 8 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 52bcb82..788cbc7 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -159,7 +159,7 @@ def analyze(
            sensitivity measures from given data." European Journal of
            Operational Research, 226(3):536-550, doi:10.1016/j.ejor.2012.11.047.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     valid_methods = {"delta", "sobol", "all"}
diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 5e8ae11..f6ad7c9 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -55,7 +55,7 @@ def analyze(
            indices." Mathematics and Computers in Simulation, 79(10):3009-3017,
            doi:10.1016/j.matcom.2009.01.023.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index d4aef0f..9e89afb 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -196,7 +196,7 @@ def analyze(
        https://doi.org/10.1029/2022WR032834
     """
     # Random Seed
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     # Check arguments
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index a6e4f2c..2511db2 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -65,7 +65,7 @@ def analyze(
        fast99 - R `sensitivity` package
        https://github.com/cran/sensitivity/blob/master/R/fast99.R
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index 98592e8..e3fbb0d 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -68,7 +68,7 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
            Wiley, West Sussex, U.K.
            http://doi.org/10.1002/9780470725184
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     problem = extend_bounds(problem)
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index e2a46e8..84ff1ea 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -177,12 +177,14 @@ def analyze(
     )
 
     # Random Seed
-    if seed:
-        rng = handle_seed(seed)  # noqa
+    if seed is None or seed is False:
+        random = np.random.random_sample
+    else:
+        random = handle_seed(seed).random
 
     # Initial part: Check input arguments and define HDMR variables
     settings = _check_settings(X, Y, maxorder, maxiter, m, K, R, alpha, lambdax)
-    init_vars = _init(X, Y, settings)
+    init_vars = _init(X, Y, settings, random)
 
     # Sensitivity Analysis Computation with/without bootstrapping
     SA, Em, RT, Y_em, idx = _compute(X, Y, settings, init_vars)
@@ -371,7 +373,7 @@ def _compute(X, Y, settings, init_vars):
     return (SA, Em, RT, Y_em, idx)
 
 
-def _init(X, Y, settings):
+def _init(X, Y, settings, random=np.random.random_sample):
     """Initialize HDMR variables."""
     N, d, maxorder, maxiter, m, K, R, alpha, lambdax = settings
 
@@ -381,7 +383,7 @@ def _init(X, Y, settings):
         idx = np.arange(0, N).reshape(N, 1)
     else:
         # Now setup the bootstrap matrix with selection matrix, idx, for samples
-        idx = np.argsort(np.random.rand(N, K), axis=0)[:R]
+        idx = np.argsort(random((N, K)), axis=0)[:R]
 
     # Compute normalized X-values
     X_n = (X - np.tile(X.min(0), (N, 1))) / np.tile((X.max(0)) - X.min(0), (N, 1))
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 80851ce..e25722f 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -103,7 +103,7 @@ def analyze(
            Combining variance- and distribution-based global sensitivity analysis
            https://github.com/baronig/GSA-cvd
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 6cb5ed3..1ed661a 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -110,7 +110,7 @@ def analyze(
        Reliability Engineering & System Safety, 92(7), 957-960.
        https://doi.org/10.1016/j.ress.2006.07.001
     """
-    if seed:
+    if seed is not None:
         # Set seed to ensure CIs are the same
         rng = np.random.default_rng(seed).integers
     else:
-- 
2.43.0


From 531abd65d43954cd1ed3eb45ccd12995564e211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 05/70] fix: report the DGSM confidence interval on the scale
 of dgsm

dgsm_conf was the half-width of the bootstrapped mean squared derivative, not
of dgsm, so it was off by (range^2 / (pi^2 Var(Y))) and depended on the units
of X and Y.
---
 src/SALib/analyze/dgsm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index f6ad7c9..227a1a1 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -129,7 +129,8 @@ def calc_dgsm(base, perturbed, x_delta, bounds, num_resamples, conf_level):
     """
     D = np.var(base)
     vi = calc_vi_mean(base, perturbed, x_delta)
-    dgsm = vi * (bounds[1] - bounds[0]) ** 2 / (D * np.pi**2)
+    scale = (bounds[1] - bounds[0]) ** 2 / (D * np.pi**2)
+    dgsm = vi * scale
 
     len_base = len(base)
     s = np.empty(num_resamples)
@@ -138,7 +139,7 @@ def calc_dgsm(base, perturbed, x_delta, bounds, num_resamples, conf_level):
         r_i = r[i]
         s[i] = calc_vi_mean(base[r_i], perturbed[r_i], x_delta[r_i])
 
-    return dgsm, norm.ppf(0.5 + conf_level / 2.0) * s.std(ddof=1)
+    return dgsm, norm.ppf(0.5 + conf_level / 2.0) * s.std(ddof=1) * scale
 
 
 def cli_parse(parser):
-- 
2.43.0


From cd53a10a8fb7e52f4ff505110ba26f7c063393e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 06/70] fix: zero Sobol indices and confidence widths for
 constant outputs

Outputs with exactly zero standard deviation gave NaN for every index, and
the widths of second order and of all parallel estimates were NaN for
constant outputs, where the serial first and total order widths are zero.
---
 src/SALib/analyze/sobol.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 1ed661a..d70fc40 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -138,7 +138,11 @@ def analyze(
     # Estimates of the Sobol' indices can be biased for non-centered outputs
     # so we center here by normalizing with the standard deviation.
     # Other approaches opt to subtract the mean.
-    Y = (Y - Y.mean()) / Y.std()
+    # Constant outputs cannot be scaled; all indices are then zero.
+    Y = Y - Y.mean()
+    std = Y.std()
+    if std != 0.0:
+        Y = Y / std
 
     A, B, AB, BA = separate_output_values(Y, D, N, calc_second_order)
     r = rng(N, size=(N, num_resamples))
@@ -177,9 +181,9 @@ def analyze(
             for j in range(D):
                 for k in range(j + 1, D):
                     S["S2"][j, k] = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
-                    S["S2_conf"][j, k] = Z * second_order(
-                        A[r], AB[r, j], AB[r, k], BA[r, j], B[r]
-                    ).std(ddof=1)
+                    S["S2_conf"][j, k] = _half_width(
+                        Z, second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r])
+                    )
     else:
         tasks, n_processors = create_task_list(D, calc_second_order, n_processors)
 
@@ -246,6 +250,18 @@ def second_order(A, ABj, ABk, BAj, B):
     return Vjk - Sj - Sk
 
 
+def _half_width(Z, resamples):
+    """Half-width of the confidence interval of an index from its resamples.
+
+    The estimators return a single zero for constant outputs, in which case
+    there is no spread.
+    """
+    if np.ndim(resamples) == 0:
+        return 0.0
+
+    return Z * resamples.std(ddof=1)
+
+
 def create_Si_dict(
     D: int, num_resamples: int, keep_resamples: bool, calc_second_order: bool
 ):
@@ -285,15 +301,17 @@ def sobol_parallel(Z, A, AB, BA, B, r, tasks):
         if d == "S1":
             s = first_order(A, AB[:, j], B)
         elif d == "S1_conf":
-            s = Z * first_order(A[r], AB[r, j], B[r]).std(ddof=1)
+            s = _half_width(Z, first_order(A[r], AB[r, j], B[r]))
         elif d == "ST":
             s = total_order(A, AB[:, j], B)
         elif d == "ST_conf":
-            s = Z * total_order(A[r], AB[r, j], B[r]).std(ddof=1)
+            s = _half_width(Z, total_order(A[r], AB[r, j], B[r]))
         elif d == "S2":
             s = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
         elif d == "S2_conf":
-            s = Z * second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r]).std(ddof=1)
+            s = _half_width(
+                Z, second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r])
+            )
         sobol_indices.append([d, j, k, s])
 
     return sobol_indices
-- 
2.43.0


From 51c094a19f027a1ea39b0837b85b13ece11683e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 07/70] fix: label second order Sobol indices of one or two
 parameters

With two parameters the single pair was labelled by a list instead of a
pair of names, and with one parameter to_df raised IndexError.
---
 src/SALib/analyze/sobol.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index d70fc40..6131c81 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -416,13 +416,11 @@ def Si_to_pandas_dict(S_dict):
 
     idx = None
     second_order = None
-    if "S2" in S_dict:
-        names, _ = extract_group_names(S_dict.problem)
+    names, _ = extract_group_names(S_dict.problem)
 
-        if len(names) > 2:
-            idx = list(combinations(names, 2))
-        else:
-            idx = (names,)
+    # A single parameter (or group) has no second order indices
+    if "S2" in S_dict and len(names) > 1:
+        idx = list(combinations(names, 2))
 
         second_order = {
             "S2": [S_dict["S2"][names.index(i[0]), names.index(i[1])] for i in idx],
-- 
2.43.0


From e4ba03d88774003d8dcf3de155f6a46856f7d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 08/70] fix: keep the resamples of parallel Sobol analysis

With parallel=True and keep_resamples=True the documented S1_conf_all and
ST_conf_all arrays were returned as zeros.
---
 src/SALib/analyze/sobol.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 6131c81..6ecab33 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -301,11 +301,15 @@ def sobol_parallel(Z, A, AB, BA, B, r, tasks):
         if d == "S1":
             s = first_order(A, AB[:, j], B)
         elif d == "S1_conf":
-            s = _half_width(Z, first_order(A[r], AB[r, j], B[r]))
+            resamples = first_order(A[r], AB[r, j], B[r])
+            sobol_indices.append(["S1_conf_all", j, k, resamples])
+            s = _half_width(Z, resamples)
         elif d == "ST":
             s = total_order(A, AB[:, j], B)
         elif d == "ST_conf":
-            s = _half_width(Z, total_order(A[r], AB[r, j], B[r]))
+            resamples = total_order(A[r], AB[r, j], B[r])
+            sobol_indices.append(["ST_conf_all", j, k, resamples])
+            s = _half_width(Z, resamples)
         elif d == "S2":
             s = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
         elif d == "S2_conf":
@@ -372,7 +376,10 @@ def Si_list_to_dict(
         L += list
 
     for s in L:  # First order (+conf.)
-        if s[2] is None:
+        if s[0].endswith("_all"):
+            if keep_resamples:
+                S[s[0]][:, s[1]] = s[3]
+        elif s[2] is None:
             S[s[0]][s[1]] = s[3]
         else:
             S[s[0]][s[1], s[2]] = s[3]
-- 
2.43.0


From 1f063934498a8a83a495243e7a476dc4b4b0116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 09/70] fix: reject Morris outputs that are not whole
 trajectories

The trajectory size was derived from the number of outputs, so outputs
whose number is not a multiple of the trajectory size were cut into
trajectories of a wrong size and gave meaningless effects.
---
 src/SALib/analyze/morris.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index 1c6c864..e029a12 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -146,8 +146,12 @@ def analyze(
     groups, unique_group_names = compute_groups_matrix(problem["groups"])
     number_of_groups = len(unique_group_names)
 
-    num_trajectories = int(Y.size / (number_of_groups + 1))
-    trajectory_size = int(Y.size / num_trajectories)
+    trajectory_size = number_of_groups + 1
+    if Y.size == 0 or Y.size % trajectory_size != 0:
+        raise ValueError(
+            "Number of model outputs must be a multiple of the number of "
+            f"points in a trajectory ({trajectory_size})."
+        )
 
     elementary_effects = _compute_elementary_effects(
         X, Y, trajectory_size, delta, scaling=scaled
-- 
2.43.0


From 334004dea28ba3f5b0df4a0c8f5d7c75acf3b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 10/70] fix: PAWN slice edges for any number of slices

Accumulated rounding made the last edge exceed one for some numbers of
slices (6, 9, 21, ...), for which the analysis raised ValueError.
---
 src/SALib/analyze/pawn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index e25722f..0dca634 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -112,9 +112,8 @@ def analyze(
     results = np.full((D, 6), np.nan)
     temp_pawn = np.full((S, D), np.nan)
 
-    step = 1 / S
+    seq = np.linspace(0, 1, S + 1)
     for d_i in range(D):
-        seq = np.arange(0, 1 + step, step)
         X_di = X[:, d_i]
         X_q = np.nanquantile(X_di, seq)
 
-- 
2.43.0


From 52e3d9a41248e2ffb45c2fccf53cb081c67c51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 11/70] fix: include the largest input values in the last PAWN
 slice

Samples at the maximum of an input were in no slice at all, which for
inputs with few distinct values ignored a large part of the sample.
---
 src/SALib/analyze/pawn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 0dca634..03ac6d3 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -118,7 +118,9 @@ def analyze(
         X_q = np.nanquantile(X_di, seq)
 
         for s in range(S):
-            Y_sel = Y[(X_di >= X_q[s]) & (X_di < X_q[s + 1])]
+            # The last slice includes the largest values
+            upper = X_di <= X_q[s + 1] if s == S - 1 else X_di < X_q[s + 1]
+            Y_sel = Y[(X_di >= X_q[s]) & upper]
             if len(Y_sel) == 0:
                 # no available samples
                 continue
-- 
2.43.0


From 9ee9381d6a26307596e58f44226a03f3de007b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 12/70] fix: ignore NaN outputs in PAWN as documented

A single NaN output made every index NaN.
---
 src/SALib/analyze/pawn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 03ac6d3..add4fbb 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -132,7 +132,7 @@ def analyze(
             # if the K-S statistic is small or the p-value is high, then
             # we cannot reject the hypothesis that the distributions of
             # the two samples are the same.
-            ks = ks_2samp(Y_sel, Y)
+            ks = ks_2samp(Y_sel, Y, nan_policy="omit")
             temp_pawn[s, d_i] = ks.statistic
 
         p_ind = temp_pawn[:, d_i]
-- 
2.43.0


From 7a83031f875702eaa2d883f91d5381fab639cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 13/70] fix: average RSA results over the members of each group

The group of each parameter was compared with the unique group names
instead of the group of each parameter, which raised IndexError.
---
 src/SALib/analyze/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 22d255a..d129fec 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -112,11 +112,11 @@ def analyze(
     groups = _check_groups(problem)
     var_names, n_groups = extract_group_names(problem)
     if groups:
-        groups = np.array(var_names)
+        groups = np.array(groups)
         tmp = np.full((bins, n_groups), np.nan)
 
         # Take the mean of effects from parameters that are grouped together
-        for grp_id, grp in enumerate(groups):
+        for grp_id, grp in enumerate(var_names):
             tmp[:, grp_id] = np.nanmean(results[:, groups == grp], axis=1)
 
         results = tmp
-- 
2.43.0


From f287b61c1a33f195454772570d05dbce4372fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 14/70] fix: RSA bin edges for any number of bins

For some numbers of bins (49, 98, ...) rounding produced one edge too
many: the last bin lost its upper edge and to_df raised ValueError.
---
 src/SALib/analyze/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index d129fec..06b44df 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -124,7 +124,7 @@ def analyze(
 
     Si = ResultDict([(g, results[:, i]) for i, g in enumerate(var_names)])
     Si["names"] = var_names
-    Si["bins"] = np.arange(0.0, 1.0, (1.0 / bins))
+    Si["bins"] = np.linspace(0.0, 1.0, bins, endpoint=False)
     Si["target"] = target
 
     # Attach object methods specific to this sensitivity method to ResultDict.
@@ -142,7 +142,7 @@ def rsa(X: np.ndarray, y: np.ndarray, bins: int = 10, target="X") -> np.ndarray:
     N, D = X.shape
 
     # Pre-allocated arrays to store data/results
-    seq = np.append(np.arange(0.0, 1.0, (1 / bins)), 1.0)
+    seq = np.linspace(0.0, 1.0, bins + 1)
     X_di = np.empty(N)  # store of factor values
     r_s = np.full((bins, D), np.nan)  # results
 
-- 
2.43.0


From d5a9504cdb2893d71bd03b07c137c61079538162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 15/70] fix: name grouped discrepancy results after the groups

The results per group were returned with the names of the parameters, so
converting them to a DataFrame raised ValueError.
---
 src/SALib/analyze/discrepancy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index 282ff1b..e215111 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -109,10 +109,13 @@ def analyze(
             tmp[grp_id, :] = np.mean(s_discrepancy[groups == grp], axis=0)
 
         s_discrepancy = tmp.flatten()
+        names = unique_grps
+    else:
+        names = problem["names"]
 
     keys = ("s_discrepancy",)
     Si = ResultDict((k, np.zeros(D)) for k in keys)
-    Si["names"] = problem["names"]
+    Si["names"] = names
 
     Si["s_discrepancy"] = s_discrepancy
 
-- 
2.43.0


From a32de2e2cc1570993e914cf1e80bd073764e6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 16/70] fix: report the notes of delta analysis when every
 parameter fails

The notes were only stored when a parameter succeeded, so a result in
which none did lacked them.
---
 src/SALib/analyze/delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 788cbc7..358218c 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -283,7 +283,7 @@ def analyze(
             notes.append(note)
             continue
 
-        S["notes"] = notes
+    S["notes"] = notes
 
     if print_to_console:
         # Merge dictionaries
-- 
2.43.0


From 7b724825eb81e5c4d9ade94866123d102291e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 17/70] fix: merge an underpopulated last bin in balanced delta
 resampling

Only bins that were followed by another one were merged, so the tail of a
skewed input kept a bin below the minimum class size (even a single
point), from which a full share of the balanced sample was drawn.
---
 src/SALib/analyze/delta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 358218c..0e7474a 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -447,7 +447,11 @@ def obtain_bins_indices(bin_edges, X, min_class_size):
         while len(current_bin) < min_class_size and i + 1 < len(init_indices):
             current_bin = np.concatenate((current_bin, init_indices[i + 1]))
             i += 1
-        final_indices.append(current_bin)
+        if len(current_bin) < min_class_size and final_indices:
+            # no bins left to extend an underpopulated last bin
+            final_indices[-1] = np.concatenate((final_indices[-1], current_bin))
+        else:
+            final_indices.append(current_bin)
         i += 1
     return init_indices, final_indices
 
-- 
2.43.0


From 8473fafa0373706aec77954460c8e0478a19b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 18/70] fix: zero ill-conditioned first order terms in HDMR

The coefficients of a term whose normal matrix is singular were computed
from uninitialised memory instead of the documented zero.
---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 84ff1ea..e722b4f 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -523,7 +523,7 @@ def B_spline(X, m, d):
 def _first_order(B1, Y_res, C1, R, n1, m1, maxiter, lambdax):
     """Compute first order sensitivities."""
     Y_i = np.empty((R, n1))  # Initialize 1st order contributions
-    T1 = np.empty((m1, R, n1))  # Initialize T(emporary) matrix - 1st
+    T1 = np.zeros((m1, R, n1))  # Initialize T(emporary) matrix - 1st
     it = 0  # Initialize iteration counter
 
     lam_eye_m1 = lambdax * identity(m1)
-- 
2.43.0


From 77323fafcf12ff061c453e38c10fdc634f624a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 19/70] fix: degrees of freedom in the HDMR F-test

The first second order and the first third order term were tested with
the number of coefficients of the order below.
---
 src/SALib/analyze/hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index e722b4f..e5df695 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -649,9 +649,9 @@ def f_test(Y, f0, Y_em, R, alpha, m1, m2, m3, n1, n2, n3, n):
         Y_res1 = Y_res0 - Y_em[:, i]
 
         # Number of parameters of proposed model (order dependent)
-        if i <= n1:
+        if i < n1:
             p1 = m1  # 1st order
-        elif n1 < i <= (n1 + n2):
+        elif i < (n1 + n2):
             p1 = m2  # 2nd order
         else:
             p1 = m3  # 3rd order
-- 
2.43.0


From 79cd5366c94f0cd54efdf26bba543b34f52fd825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 20/70] fix: confidence intervals of the sums of HDMR indices

The standard deviation was that of a single number, so always zero.
---
 src/SALib/analyze/hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index e5df695..ef9a904 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -794,9 +794,9 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["Sa_conf"] = mult * np.std(SA["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(SA["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(SA["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"], axis=0))
 
     # F-test # of selection to print out
     Si["select"] = Em["select"].flatten()
-- 
2.43.0


From 2616acee58645a3368cd120e21bb028fc08e8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 21/70] fix: count HDMR term selections per term

The flattened terms x bootstraps matrix was read as if it had one entry
per term.
---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index ef9a904..f47fba7 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -799,7 +799,7 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"], axis=0))
 
     # F-test # of selection to print out
-    Si["select"] = Em["select"].flatten()
+    Si["select"] = np.sum(Em["select"], axis=1)
 
     Si["names"] = Si["Term"]
 
-- 
2.43.0


From d920aac4e07771ae5f0ed9be958d745ea2920651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 22/70] fix: HDMR emulation of new inputs

New inputs were normalised by their own range instead of that of the
inputs used to build the emulator, and the constant term was left out
(or taken from the outputs to compare with).
---
 src/SALib/analyze/hdmr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index f47fba7..f526598 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -871,8 +871,9 @@ def emulate(self, X, Y=None):
     # Initialize emulated Y's
     Y_em = np.zeros((N, n1 + n2 + n3))
 
-    # Compute normalized X-values
-    X_n = (X - np.tile(X.min(0), (N, 1))) / np.tile((X.max(0)) - X.min(0), (N, 1))
+    # Normalize X-values as the inputs the emulator was built from
+    X_min, X_max = self["X"].min(0), self["X"].max(0)
+    X_n = (X - X_min) / (X_max - X_min)
 
     # Now compute B values
     B1 = B_spline(X_n, m, d)
@@ -908,12 +909,11 @@ def emulate(self, X, Y=None):
         for j in range(n1 + n2, n1 + n2 + n3):
             Y_em[:, j] = B3[:, :, j - n1 - n2] @ C3[:, j - n1 - n2]
 
-    Y_mean = 0
     if Y is not None:
-        Y_mean = np.mean(Y)
         self["Y_test"] = Y
 
-    self["emulated"] = np.sum(Y_em, axis=1) + Y_mean
+    # Add the mean output (zeroth order term)
+    self["emulated"] = np.sum(Y_em, axis=1) + np.mean(Em["f0"])
 
 
 def to_df(self):
-- 
2.43.0


From 4bbde45e359a6a2eb0ce47765de26f28b2f299b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 23/70] fix: keep the parameter names of a ProblemSpec analysed
 with HDMR

The names of the expansion terms replaced the names of the parameters,
so the specification could not be sampled or analysed again.
---
 src/SALib/analyze/hdmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index f526598..a728e13 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -820,7 +820,8 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     if not isinstance(problem, ProblemSpec):
         Si.problem = problem
     else:
-        problem.update(Si)
+        # Keep the parameter names of the problem ("names" of Si lists the terms)
+        problem.update({k: v for k, v in Si.items() if k != "names"})
         problem.emulate = MethodType(emulate, problem)
 
     return Si
-- 
2.43.0


From 60243a66991694b261bfbae88c285dfb94c83f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 24/70] fix: leave the parameter names alone in enhanced HDMR

The names of the interaction terms were appended to the list of names of
the caller's problem, so that the problem could not be used again.
---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9e89afb..4bc5df8 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -588,7 +588,7 @@ def _core_params(
         )
         for k in keys
     )
-    Si["Term"] = problem["names"]
+    Si["Term"] = list(problem["names"])
     Si["ST"] = np.full(hdmr.nc_t, np.nan)
     Si["ST_conf"] = np.full(hdmr.nc_t, np.nan)
 
-- 
2.43.0


From 32b719b73e30c943cf06c919d86cf932646d58bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 25/70] fix: first order enhanced HDMR

analyze(max_order=1) failed on a missing attribute.
---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 4bc5df8..f795503 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1436,7 +1436,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     # Compute the total sensitivity of each parameter/coefficient
     for r in range(hdmr.d):
         if hdmr.max_order == 1:
-            TS = hdmr.S[r, :]
+            TS = Si["S"][r, :]
         elif hdmr.max_order == 2:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
-- 
2.43.0


From ca6980c92b20e0feab4ca79b989202d0baf533fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 26/70] fix: third order enhanced HDMR

analyze(max_order=3) always failed; with four or more inputs the extended
base took the second order columns of other pairs; and the announced
reduction to the second order of two inputs was not carried out.
---
 src/SALib/analyze/enhanced_hdmr.py | 38 ++++++++----------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index f795503..25add40 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -200,7 +200,7 @@ def analyze(
         np.random.seed(seed)
 
     # Check arguments
-    Y, problem, subset, max_iter = _check_args(
+    Y, problem, max_order, subset, max_iter = _check_args(
         problem,
         X,
         Y,
@@ -345,7 +345,7 @@ def _check_args(
     if l2_penalty < 0.0 or l2_penalty > 10:
         raise ValueError("'l2_penalty' should be in between 0 and 10")
 
-    return Y, problem, subset, max_iter
+    return Y, problem, max_order, subset, max_iter
 
 
 def _core_params(
@@ -690,32 +690,13 @@ def _basis_matrix(X, hdmr):
                 b_m[:, col : col + hdmr.p_o] = b_m[:, k * hdmr.p_o : (k + 1) * hdmr.p_o]
                 col += hdmr.p_o
 
+                # Products of the polynomials of each pair of the triple
                 p_o_2 = hdmr.p_o**2
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (i + 1)
-                    + i * p_o_2 : hdmr.tnt1
-                    + (i + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
-
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (j + 1)
-                    + j * p_o_2 : hdmr.tnt1
-                    + (j + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (k + 1)
-                    + k * p_o_2 : hdmr.tnt1
-                    + (k + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
+                pairs = hdmr.beta.tolist()
+                for pair in ([i, j], [i, k], [j, k]):
+                    end = hdmr.tnt1 + (pairs.index(pair) + 1) * hdmr.nt2
+                    b_m[:, col : col + p_o_2] = b_m[:, end - p_o_2 : end]
+                    col += p_o_2
 
             for l1, l2, l3 in _prod(
                 range(i * hdmr.p_o, (i + 1) * hdmr.p_o),
@@ -873,6 +854,7 @@ def _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha):
                     Y_res,
                     l2_penalty,
                     hdmr,
+                    t,
                 )
 
         # Calculate component functions
@@ -1442,7 +1424,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
         elif hdmr.max_order == 3:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
-            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.nc3 == r, axis=1) == 1)[0]
+            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.gamma == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, np.append(ij, ijk)), :], axis=0)
         Si["ST"][r] = np.mean(TS)
         Si["ST_conf"][r] = mult * np.std(TS)
-- 
2.43.0


From be002f53838663eb5ef2300237ceca6a3c0834e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 27/70] fix: confidence intervals of the sums of enhanced HDMR
 indices

The standard deviation was that of a single number, so always zero.
---
 src/SALib/analyze/enhanced_hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 25add40..ca560be 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1433,9 +1433,9 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     Si["Sa_conf"] = mult * np.std(Si["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(Si["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(Si["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"], axis=0))
 
     # Assign Bootstrap Results to Si Dict
     Si["Sa"] = np.mean(Si["Sa"], axis=1)
-- 
2.43.0


From 04a0ede18cfc45bf853482164b9282e0abb130a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 28/70] fix: print the total indices of the parameters in
 enhanced HDMR

The number of rows with a total index was taken to be the number of terms
without one.
---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index ca560be..c2f0c13 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1500,7 +1500,7 @@ def emulate(self, X):
 
 def _print(Si):
     nc_t = len(Si["Sa"])
-    d = np.isnan(Si["ST"]).sum()
+    d = np.sum(~np.isnan(Si["ST"]))
     print("\n")
     cols = "Term    \t      Sa            Sb             S             ST         Significancy "  # noqa: E501
     print(cols)
-- 
2.43.0


From 37a7965844b2866997bb6e4dbd8b857e15488826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 29/70] fix: enhanced HDMR emulation of new inputs

The range and the orthonormal polynomials of the new inputs were used
with the coefficients of those the emulator was built from, and the mean
output was left out.
---
 src/SALib/analyze/enhanced_hdmr.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index c2f0c13..48c811b 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -229,7 +229,7 @@ def analyze(
     # Functional ANOVA decomposition
     Si, hdmr = _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha)
     # HDMR finalize
-    Si = _finalize(hdmr, Si, alpha, return_emulator)
+    Si = _finalize(hdmr, Si, alpha, return_emulator, X)
     # Print results to console
     if print_to_console:
         _print(Si)
@@ -623,7 +623,7 @@ def _core_params(
     return (hdmr, Si)
 
 
-def _basis_matrix(X, hdmr):
+def _basis_matrix(X, hdmr, X_ref=None):
     """The basis matrix represents the foundation of the component functions.
     It is constructed using orthonormal polynomials for each input variable,
     ensuring that it captures the data optimally. The component functions are
@@ -635,19 +635,24 @@ def _basis_matrix(X, hdmr):
         Model input matrix
     hdmr : namedtuple
         Core parameters of hdmr expansion
+    X_ref : numpy.array
+        Model input matrix that defines the range and the polynomials
+        (default: `X`)
 
     Returns
     -------
     b_m : numpy.array
         Basis matrix
     """
+    if X_ref is None:
+        X_ref = X
+
     # Compute normalized X-values
-    X_n = (X - np.tile(X.min(0), (X.shape[0], 1))) / np.tile(
-        (X.max(0)) - X.min(0), (X.shape[0], 1)
-    )
+    X_min, X_max = X_ref.min(0), X_ref.max(0)
+    X_n = (X - X_min) / (X_max - X_min)
 
     # Compute Orthonormal Polynomial Coefficients
-    coeff = _orth_poly_coeff(X_n, hdmr)
+    coeff = _orth_poly_coeff((X_ref - X_min) / (X_max - X_min), hdmr)
 
     # Initialize Basis Matrix
     b_m = np.zeros((X.shape[0], hdmr.a_tnt))
@@ -1387,7 +1392,7 @@ def _f_test(Y_idx, Y_e, alpha, hdmr):
     return result
 
 
-def _finalize(hdmr, Si, alpha, return_emulator):
+def _finalize(hdmr, Si, alpha, return_emulator, X):
     """Final processing of sensivity analysis. Calculates confidence interval
     using statistical analysis.
 
@@ -1401,6 +1406,8 @@ def _finalize(hdmr, Si, alpha, return_emulator):
         Significance level
     return_emulator : bool
         Whether to attach emulator to the Si ResultDict
+    X : numpy.array
+        Model input matrix the emulator is built from
 
     Returns
     -------
@@ -1451,6 +1458,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     # Bind emulator method to the ResultDict
     if return_emulator:
         Si["hdmr"] = hdmr
+        Si["X"] = X
         Si.emulate = MethodType(emulate, Si)
 
     # Bind Pandas Dataframe conversion to the ResultDict
@@ -1490,12 +1498,12 @@ def emulate(self, X):
         Emulated output
     """
     # Calculate HDMR Basis Matrix
-    b_m = _basis_matrix(X, self["hdmr"])
+    b_m = _basis_matrix(X, self["hdmr"], self["X"])
 
     # Get component functions
     Y_em = _comp_func(b_m, self["hdmr"], emulator=True)
 
-    return np.sum(Y_em, axis=1)
+    return np.sum(Y_em, axis=1) + self["hdmr"].f0
 
 
 def _print(Si):
-- 
2.43.0


From b824a73eb96f533c36b4ca175623a2d2a26f5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 30/70] fix: centre integer outputs in enhanced HDMR

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 48c811b..ad3eefd 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -833,7 +833,7 @@ def _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha):
         # Extract model output for a corresponding bootstrap iteration
         Y_idx = Y[hdmr.idx[:, t], 0]
         # Subtract mean from it
-        Y_idx -= np.mean(Y_idx)
+        Y_idx = Y_idx - np.mean(Y_idx)
 
         if hdmr.ext_base:
             cost = _cost_matrix(b_m[hdmr.idx[:, t], :], hdmr)
-- 
2.43.0


From f48eed80bfa8f3a56095b84f2d9076b82da115ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 31/70] fix: discard the analysis when samples or results are
 replaced

---
 src/SALib/util/problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index bf0796d..3fc1c61 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -73,8 +73,9 @@ class ProblemSpec(dict):
 
         self._samples = vals
 
-        # Clear results to avoid confusion
+        # Clear results and analysis to avoid confusion
         self._results = None
+        self._analysis = None
 
     @property
     def results(self):
@@ -102,6 +103,9 @@ class ProblemSpec(dict):
 
         self._results = vals
 
+        # Any existing analysis was conducted on the previous results
+        self._analysis = None
+
     @property
     def analysis(self):
         return self._analysis
-- 
2.43.0


From 84ff03dd0b72c36b50363271ecc7afd8188f43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 32/70] fix: reject the analysis of a single group

---
 src/SALib/util/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 3fc1c61..d8c588e 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -340,7 +340,9 @@ class ProblemSpec(dict):
         -------
         self : ProblemSpec object
         """
-        if self["num_vars"] == 1 or (self["groups"] and len("groups") == 1):
+        if self["num_vars"] == 1 or (
+            self["groups"] and len(set(self["groups"])) == 1
+        ):
             msg = (
                 "There is only a single parameter or group defined. There is "
                 "no point in conducting sensitivity analysis as any and all"
-- 
2.43.0


From 370f686887a03f0d5b6ea087da18c214b5562f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 33/70] fix: keep no partial analysis when the analysis of an
 output fails

---
 src/SALib/util/problem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index d8c588e..c6ee1a0 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -372,9 +372,10 @@ class ProblemSpec(dict):
                 self["outputs"] = [f"Y{i}" for i in range(1, num_cols + 1)]
 
         if len(self["outputs"]) > 1:
-            self._analysis = {}
-            for i, out in enumerate(self["outputs"]):
-                self._analysis[out] = func(self, Y=self._results[:, i])
+            self._analysis = {
+                out: func(self, Y=self._results[:, i])
+                for i, out in enumerate(self["outputs"])
+            }
         else:
             self._analysis = func(self, Y=self._results)
 
-- 
2.43.0


From 8b0f7ac55536c8211170adf8dcd1cfc157eab517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 34/70] fix: analyze a single output given as a column

---
 src/SALib/util/problem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index c6ee1a0..5eb0133 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -377,7 +377,7 @@ class ProblemSpec(dict):
                 for i, out in enumerate(self["outputs"])
             }
         else:
-            self._analysis = func(self, Y=self._results)
+            self._analysis = func(self, Y=self._single_output())
 
         return self
 
@@ -433,7 +433,7 @@ class ProblemSpec(dict):
                 f" for 1 output."
             )
 
-            res = func(self, Y=self._results)
+            res = func(self, Y=self._single_output())
         else:
             max_procs = cpu_count()
             if nprocs is None:
@@ -551,6 +551,13 @@ class ProblemSpec(dict):
 
         return tmp_f
 
+    def _single_output(self):
+        # Results of a single output as a 1D array
+        if len(self._results.shape) == 1:
+            return self._results
+
+        return self._results[:, 0]
+
     def _collect_results(self, res):
         res_shape = res[0].shape
         if len(res_shape) > 1:
-- 
2.43.0


From 12fb34853d360bf063854ba59dc0a68205330fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 35/70] fix: evaluate no empty chunks in parallel

---
 src/SALib/util/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 5eb0133..24e0f1d 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -235,7 +235,8 @@ class ProblemSpec(dict):
         tmp_f = self._wrap_func(func, *args, **kwargs)
 
         # Split into even chunks
-        chunks = np.array_split(self._samples, int(nprocs), axis=0)
+        nchunks = max(1, min(int(nprocs), len(self._samples)))
+        chunks = np.array_split(self._samples, nchunks, axis=0)
 
         if ptqdm_available:
             # Display progress bar if available
-- 
2.43.0


From 91eeaac8dd556d6d98961d95dcd7210c9c845bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 36/70] fix: collect exactly the results returned by parallel
 workers

---
 src/SALib/util/problem.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 24e0f1d..3c75f1b 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -560,24 +560,8 @@ class ProblemSpec(dict):
         return self._results[:, 0]
 
     def _collect_results(self, res):
-        res_shape = res[0].shape
-        if len(res_shape) > 1:
-            res_shape = (len(self._samples), *res_shape[1:])
-        else:
-            res_shape = len(self._samples)
-
-        final_res = np.empty(res_shape)
-
-        # Collect results
-        # Cannot enumerate over this as the length
-        # of individual results may vary
-        i = 0
-        for r in res:
-            r_len = len(r)
-            final_res[i : i + r_len] = r
-            i += r_len
-
-        return final_res
+        # Join in sample order, the length of individual results may vary
+        return np.concatenate(list(res), axis=0)
 
     def _method_creator(self, func, method):
         """Generate convenience methods for specified `method`."""
-- 
2.43.0


From f83d11832fea56dc3969ac985318f1a41b875b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 37/70] fix: pass arguments on to distributed models and allow
 no servers

---
 src/SALib/util/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 3c75f1b..d5fa155 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -303,9 +303,11 @@ class ProblemSpec(dict):
         workers = pp_Pool(nprocs, servers=servers)
 
         # Split into even chunks
-        chunks = np.array_split(self._samples, int(nprocs) * len(servers), axis=0)
+        nodes = len(servers) if servers else 1
+        nchunks = max(1, min(int(nprocs) * nodes, len(self._samples)))
+        chunks = np.array_split(self._samples, nchunks, axis=0)
 
-        tmp_f = self._wrap_func(func)
+        tmp_f = self._wrap_func(func, *args, **kwargs)
 
         res = list(workers.map(tmp_f, chunks))
 
-- 
2.43.0


From 6e2f0af63c8d7d804ca3a879b700c762ac708a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 38/70] fix: pad the groups along with the names in fractional
 factorial sampling

---
 src/SALib/sample/ff.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index afd3b9e..1057208 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -47,10 +47,13 @@ def extend_bounds(problem):
     bounds = list(problem["bounds"])
     names = list(problem["names"])
     if num_dummy_variables > 0:
+        dummies = ["dummy_" + str(var) for var in range(num_dummy_variables)]
         bounds.extend([[0, 1] for x in range(num_dummy_variables)])
-        names.extend(["dummy_" + str(var) for var in range(num_dummy_variables)])
+        names.extend(dummies)
         problem["bounds"] = bounds
         problem["names"] = names
+        if problem.get("groups"):
+            problem["groups"] = list(problem["groups"]) + dummies
         problem["num_vars"] = num_ff_vars
         if problem.get("dists"):
             problem["dists"] = list(problem["dists"]) + ["unif"] * num_dummy_variables
-- 
2.43.0


From 9d429ccaefbcac8423b40743d2e6ba5e5f386e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:00 +0000
Subject: [PATCH 39/70] fix: pass positional arguments on to analysis functions

---
 src/SALib/util/problem.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index d5fa155..23a3934 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -1,7 +1,8 @@
 import warnings
 import importlib
 from types import MethodType
-from functools import partial, wraps
+from functools import wraps
+from inspect import signature
 
 from multiprocess import Pool, cpu_count
 import numpy as np
@@ -360,11 +361,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in func.__code__.co_varnames:
-            # enforce passing of X if expected
-            func = partial(func, *args, X=self._samples, **kwargs)
-        else:
-            func = partial(func, *args, **kwargs)
+        func = self._wrap_analysis(func, *args, **kwargs)
 
         out_cols = self.get("outputs", None)
         if out_cols is None:
@@ -376,11 +373,11 @@ class ProblemSpec(dict):
 
         if len(self["outputs"]) > 1:
             self._analysis = {
-                out: func(self, Y=self._results[:, i])
+                out: func(self._results[:, i])
                 for i, out in enumerate(self["outputs"])
             }
         else:
-            self._analysis = func(self, Y=self._single_output())
+            self._analysis = func(self._single_output())
 
         return self
 
@@ -413,11 +410,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in func.__code__.co_varnames:
-            # enforce passing of X if expected
-            func = partial(func, *args, X=self._samples, **kwargs)
-        else:
-            func = partial(func, *args, **kwargs)
+        func = self._wrap_analysis(func, *args, **kwargs)
 
         out_cols = self.get("outputs", None)
         if out_cols is None:
@@ -436,7 +429,7 @@ class ProblemSpec(dict):
                 f" for 1 output."
             )
 
-            res = func(self, Y=self._single_output())
+            res = func(self._single_output())
         else:
             max_procs = cpu_count()
             if nprocs is None:
@@ -447,7 +440,7 @@ class ProblemSpec(dict):
             if ptqdm_available:
                 # Display progress bar if available
                 res = p_imap(
-                    lambda y: func(self, Y=y),
+                    func,
                     [self._results[:, i] for i in range(Yn)],
                     num_cpus=nprocs,
                 )
@@ -455,7 +448,7 @@ class ProblemSpec(dict):
                 with Pool(nprocs) as pool:
                     res = list(
                         pool.imap(
-                            lambda y: func(self, Y=y),
+                            func,
                             [self._results[:, i] for i in range(Yn)],
                         )
                     )
@@ -554,6 +547,18 @@ class ProblemSpec(dict):
 
         return tmp_f
 
+    def _wrap_analysis(self, func, *args, **kwargs):
+        # Create function of the output values, passing X if expected
+        takes_X = "X" in signature(func).parameters
+        if len(args) > 0:
+            inputs = (self._samples,) if takes_X else ()
+            return lambda y: func(self, *inputs, y, *args, **kwargs)
+
+        if takes_X:
+            kwargs["X"] = self._samples
+
+        return lambda y: func(self, Y=y, **kwargs)
+
     def _single_output(self):
         # Results of a single output as a 1D array
         if len(self._results.shape) == 1:
-- 
2.43.0


From 9c141b9faf85eac790b22f651fab605196409598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 40/70] fix: bind the methods of a copied ProblemSpec to the
 copy

---
 src/SALib/util/problem.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 23a3934..b196116 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -60,6 +60,17 @@ class ProblemSpec(dict):
         self._add_samplers()
         self._add_analyzers()
 
+    def __getstate__(self):
+        # The convenience methods are bound to this very object
+        return {
+            k: v for k, v in self.__dict__.items() if not isinstance(v, MethodType)
+        }
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._add_samplers()
+        self._add_analyzers()
+
     @property
     def samples(self):
         return self._samples
-- 
2.43.0


From dd3b965733f302362ab3e4aaa2cc92a99c62ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 41/70] fix: leave comments out when sniffing the format of
 parameter files

---
 src/SALib/util/util_funcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 601624d..7207d01 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -66,9 +66,10 @@ def read_param_file(filename, delimiter=None):
     fieldnames = ["name", "lower_bound", "upper_bound", "group", "dist"]
 
     with open(filename, "r") as csvfile:
-        dialect = csv.Sniffer().sniff(csvfile.read(1024), delimiters=delimiter)
-        csvfile.seek(0)
-        reader = csv.DictReader(csvfile, fieldnames=fieldnames, dialect=dialect)
+        # Comments do not follow the format of the file
+        lines = [line for line in csvfile if not line.strip().startswith("#")]
+        dialect = csv.Sniffer().sniff("".join(lines)[:1024], delimiters=delimiter)
+        reader = csv.DictReader(lines, fieldnames=fieldnames, dialect=dialect)
         for row in reader:
             if row["name"].strip().startswith("#"):
                 pass
-- 
2.43.0


From f47fda056d6753d82bd07aff3b75b3366d24f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 42/70] fix: default blank groups and distributions in
 parameter files

---
 src/SALib/util/util_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 7207d01..0070ff4 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -80,7 +80,7 @@ def read_param_file(filename, delimiter=None):
 
                 # If the fourth column does not contain a group name, use
                 # the parameter name
-                if row["group"] is None:
+                if not row["group"]:
                     groups.append(row["name"])
                 elif row["group"] == "NA":
                     groups.append(row["name"])
@@ -89,7 +89,7 @@ def read_param_file(filename, delimiter=None):
 
                 # If the fifth column does not contain a distribution
                 # use uniform
-                if row["dist"] is None:
+                if not row["dist"]:
                     dists.append("unif")
                 else:
                     dists.append(row["dist"])
-- 
2.43.0


From d4bd83e9e02f8fb4241df675a4a054a7b1e05369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 43/70] fix: read parameter files with varying numbers of
 columns

---
 src/SALib/util/util_funcs.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 0070ff4..3a1930c 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -30,6 +30,20 @@ def avail_approaches(pkg):
     return methods
 
 
+def _sniff_dialect(lines, delimiters):
+    """Determine the format of the lines of a parameter file.
+
+    The format of the first row decides if the number of columns varies, as
+    the columns for groups and distributions are optional.
+    """
+    sniffer = csv.Sniffer()
+    lines = [line for line in lines if line.strip()]
+    try:
+        return sniffer.sniff("".join(lines)[:1024], delimiters=delimiters)
+    except csv.Error:
+        return sniffer.sniff("".join(lines[:1]), delimiters=delimiters)
+
+
 def read_param_file(filename, delimiter=None):
     """Unpacks a parameter file into a dictionary
 
@@ -68,7 +82,7 @@ def read_param_file(filename, delimiter=None):
     with open(filename, "r") as csvfile:
         # Comments do not follow the format of the file
         lines = [line for line in csvfile if not line.strip().startswith("#")]
-        dialect = csv.Sniffer().sniff("".join(lines)[:1024], delimiters=delimiter)
+        dialect = _sniff_dialect(lines, delimiter or ",;\t |:")
         reader = csv.DictReader(lines, fieldnames=fieldnames, dialect=dialect)
         for row in reader:
             if row["name"].strip().startswith("#"):
-- 
2.43.0


From 9970e150316d33e3f7a46b640437f358f3f75dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 44/70] fix: honour --seed and --skip-values of the sobol
 sampling command

Both options were parsed and then ignored, so a seeded command wrote
different samples every time.
---
 src/SALib/sample/sobol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SALib/sample/sobol.py b/src/SALib/sample/sobol.py
index 07e905a..427b413 100644
--- a/src/SALib/sample/sobol.py
+++ b/src/SALib/sample/sobol.py
@@ -242,6 +242,8 @@ def cli_action(args):
         args.samples,
         calc_second_order=(args.max_order == 2),
         scramble=args.scramble,
+        skip_values=0 if args.skip_values is None else args.skip_values,
+        seed=args.seed,
     )
     np.savetxt(
         args.output,
-- 
2.43.0


From a84a8a5a269939dbb8c61c4a2fb8ed07e108ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 45/70] fix: accept False for the boolean options of the morris
 commands

bool('False') is True, so `--local False` and `--scaled False` switched the
option on.
---
 src/SALib/analyze/morris.py       | 2 +-
 src/SALib/sample/morris/morris.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index e029a12..efb7caa 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -634,7 +634,7 @@ def cli_parse(parser):
     )
     parser.add_argument(
         "--scaled",
-        type=bool,
+        type=lambda x: (str(x).lower() in ("true", "1", "yes")),
         required=False,
         default=False,
         help="Scale the results by ratio of stddev of X and Y (Morris)",
diff --git a/src/SALib/sample/morris/morris.py b/src/SALib/sample/morris/morris.py
index d54cdd9..f2af90a 100644
--- a/src/SALib/sample/morris/morris.py
+++ b/src/SALib/sample/morris/morris.py
@@ -445,7 +445,7 @@ def cli_parse(parser):
     parser.add_argument(
         "-lo",
         "--local",
-        type=bool,
+        type=lambda x: (str(x).lower() in ("true", "1", "yes")),
         required=True,
         default=False,
         help="Use the local optimisation method \
-- 
2.43.0


From f29f6f4822370fb152d4899dd3ecc32847f56528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 46/70] fix: default the optional settings of the pawn and rsa
 commands

Leaving out --slices, --bins or --target passed None on, which crashed or
analysed nothing; use the defaults of the analyze functions.
---
 src/SALib/analyze/pawn.py | 7 ++++++-
 src/SALib/analyze/rsa.py  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index add4fbb..dc28744 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -182,7 +182,12 @@ def cli_parse(parser):
     )
 
     parser.add_argument(
-        "-S", "--slices", type=int, required=False, help="Number of slices to take"
+        "-S",
+        "--slices",
+        type=int,
+        required=False,
+        default=10,
+        help="Number of slices to take",
     )
     return parser
 
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 06b44df..f809953 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -250,6 +250,7 @@ def cli_parse(parser):
         "--bins",
         type=int,
         required=False,
+        default=20,
         help="Number of bins to partition target space into",
     )
 
@@ -258,6 +259,7 @@ def cli_parse(parser):
         "--target",
         type=str,
         required=False,
+        default="Y",
         help="Target input space (X) or output space (Y)",
     )
 
-- 
2.43.0


From 172f98a74ae7ec5e410c826f3c4bf2643bc5cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 47/70] fix: honour --seed of the hdmr and enhanced_hdmr
 commands

---
 src/SALib/analyze/enhanced_hdmr.py | 1 +
 src/SALib/analyze/hdmr.py          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index ad3eefd..12239dd 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1680,6 +1680,7 @@ def cli_action(args):
         "extended_base": args.extended_base,
         "print_to_console": args.print_to_console,
         "return_emulator": args.return_emulator,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index a728e13..ff4f2e4 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -1092,6 +1092,7 @@ def cli_action(args):
         "alpha": alpha,
         "lambdax": lambdax,
         "print_to_console": True,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
-- 
2.43.0


From ec014037d94ea4f2ba2bab7a5254f408367aeb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 48/70] fix: read the samples of one parameter as a column in
 analysis commands

---
 src/SALib/analyze/discrepancy.py | 2 +-
 src/SALib/analyze/pawn.py        | 2 +-
 src/SALib/analyze/rbd_fast.py    | 2 +-
 src/SALib/analyze/rsa.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index e215111..d85b42a 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -135,7 +135,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index dc28744..b757631 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -194,7 +194,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index d642557..0d9168e 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -177,7 +177,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index f809953..b2fd3a9 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -268,7 +268,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
-- 
2.43.0


From c4b59bba1b34a9f4fc6dcf8fc74dba210e6a4077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 49/70] fix: reject confidence levels outside (0, 1) in fast
 and rbd_fast

The other analyzers raise an error; these returned NaN or negative widths.
---
 src/SALib/analyze/fast.py     | 3 +++
 src/SALib/analyze/rbd_fast.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index 2511db2..fb94247 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -68,6 +68,9 @@ def analyze(
     if seed is not None:
         np.random.seed(seed)
 
+    if not 0 < conf_level < 1:
+        raise RuntimeError("Confidence level must be between 0-1.")
+
     D = problem["num_vars"]
 
     if Y.size % (D) == 0:
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index 0d9168e..44c3da1 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -85,6 +85,9 @@ def analyze(
     """
     rng = handle_seed(seed)
 
+    if not 0 < conf_level < 1:
+        raise RuntimeError("Confidence level must be between 0-1.")
+
     D = problem["num_vars"]
     N = Y.size
 
-- 
2.43.0


From 884301aee1bd97afdefaea9767052793f38d6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 50/70] fix: Morris sample histograms for any number of
 parameters

---
 src/SALib/plotting/morris.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/SALib/plotting/morris.py b/src/SALib/plotting/morris.py
index 42c715f..ee091e1 100644
--- a/src/SALib/plotting/morris.py
+++ b/src/SALib/plotting/morris.py
@@ -121,15 +121,12 @@ def sample_histograms(fig, input_sample, problem, opts=None):
     num_vars = problem["num_vars"]
     names = problem["names"]
 
-    framing = 101 + (num_vars * 10)
-
-    # Find number of levels
-    num_levels = len(set(input_sample[:, 1]))
-
     out = []
 
     for variable in range(num_vars):
-        ax = fig.add_subplot(framing + variable)
+        ax = fig.add_subplot(1, num_vars, variable + 1)
+        # Find number of levels
+        num_levels = len(set(input_sample[:, variable]))
         out.append(
             ax.hist(
                 input_sample[:, variable],
-- 
2.43.0


From 23b98e4200c3a3518ce32e302c125e52b2718198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 51/70] fix: plot mu_star against its confidence interval for
 Morris groups

---
 src/SALib/plotting/morris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/plotting/morris.py b/src/SALib/plotting/morris.py
index ee091e1..1d77850 100644
--- a/src/SALib/plotting/morris.py
+++ b/src/SALib/plotting/morris.py
@@ -71,8 +71,8 @@ def covariance_plot(ax, Si, opts=None, unit=""):
     if opts is None:
         opts = {}
 
-    if Si["sigma"] is not None:
-        # sigma is not present if using morris groups
+    if Si["sigma"] is not None and not np.any(np.isnan(Si["sigma"])):
+        # sigma is not available if using morris groups
         y = Si["sigma"]
         out = ax.scatter(Si["mu_star"], y, c="k", marker="o", **opts)
         ax.set_ylabel(r"$\sigma$")
-- 
2.43.0


From 7a88969baf9a84cfc9121ef1e153179773835e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 52/70] fix: heatmaps label the indices they show, for all
 analysis methods

---
 src/SALib/plotting/heatmap.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/SALib/plotting/heatmap.py b/src/SALib/plotting/heatmap.py
index 702c1cc..f94e099 100644
--- a/src/SALib/plotting/heatmap.py
+++ b/src/SALib/plotting/heatmap.py
@@ -29,7 +29,7 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
     if ax is None:
         fig, ax = plt.subplots(1, 1, figsize=(10, 6))
     else:
-        fig = plt.gcf()
+        fig = ax.figure
 
     if metric is None:
         metric = sp["outputs"][0]
@@ -56,8 +56,23 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
     else:
         met_data = sp.analysis
 
-    si_shape = met_data[index[0]].shape
-    s_data = np.vstack([met_data[k] for k in index if met_data[k].shape == si_shape])
+    if "names" in met_data:
+        disp_names = met_data["names"]
+    else:
+        disp_names, _ = extract_group_names(sp)
+
+    # Only indices with one value for each name can be shown
+    # e.g., cannot easily show second-order values at the moment
+    index = [
+        k
+        for k in index
+        if np.shape(met_data[k]) == (len(disp_names),)
+        and np.issubdtype(np.asarray(met_data[k]).dtype, np.number)
+    ]
+    if len(index) == 0:
+        raise ValueError("None of the indices can be shown as a heatmap")
+
+    s_data = np.vstack([met_data[k] for k in index])
 
     ax.imshow(s_data)
     fig.colorbar(ax.images[0], ax=ax, shrink=0.9)
@@ -70,15 +85,10 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
     if isinstance(metric, str):
         metric = [metric]
 
-    disp_names, _ = extract_group_names(sp)
-
     ax.xaxis.set_ticks(range(0, len(disp_names)))
     ax.xaxis.set_ticklabels(disp_names, rotation=90)
 
-    # Account for indices that may have been filtered out
-    # e.g., cannot easily show second-order values at the moment
-    disp_idx = s_data.shape[0]
-    ax.yaxis.set_ticks(range(0, len(index[0:disp_idx])))
-    ax.yaxis.set_ticklabels(index[0:disp_idx])
+    ax.yaxis.set_ticks(range(0, len(index)))
+    ax.yaxis.set_ticklabels(index)
 
     return ax
-- 
2.43.0


From cadb8318ae52b34f9f23d2ccf629667304e577f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 53/70] fix: plot RSA and HDMR results of several outputs

---
 src/SALib/util/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index b196116..a683ed4 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -517,7 +517,9 @@ class ProblemSpec(dict):
             num_rows, num_cols, sharey=True, figsize=(p_width, p_height)
         )
         for res, ax in zip(self._analysis, axes):
-            self._analysis[res].plot(ax=ax, **kwargs)
+            # Method-specific plots create their own figures, so show bar charts
+            Si = self._analysis[res]
+            getattr(Si, "_plot", Si.plot)(ax=ax, **kwargs)
 
             try:
                 ax[0].set_title(res)
-- 
2.43.0


From 48f2685a8aaa329f1a076f9d63a1e39571f8df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:35 +0000
Subject: [PATCH 54/70] fix: plot fractional factorial results without
 interactions

---
 src/SALib/util/results.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SALib/util/results.py b/src/SALib/util/results.py
index 838cdb2..5188250 100644
--- a/src/SALib/util/results.py
+++ b/src/SALib/util/results.py
@@ -25,6 +25,11 @@ class ResultDict(dict):
         if isinstance(Si_df, (list, tuple)):
             import matplotlib.pyplot as plt  # type: ignore
 
+            # There may be no data frame of interactions
+            Si_df = [f for f in Si_df if f is not None]
+            if len(Si_df) == 1:
+                return barplot(Si_df[0], ax=ax)
+
             if ax is None:
                 fig, ax = plt.subplots(1, len(Si_df))
 
-- 
2.43.0


From d21d3a2d4598faf185c12ac50f24ff9aca676208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:10 +0000
Subject: [PATCH 55/70] fix: plot HDMR results of more than ten bootstrap
 trials

---
 src/SALib/plotting/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/plotting/hdmr.py b/src/SALib/plotting/hdmr.py
index 57749a4..ac3a5e0 100644
--- a/src/SALib/plotting/hdmr.py
+++ b/src/SALib/plotting/hdmr.py
@@ -46,7 +46,7 @@ def plot(Si):
     start = max(0, K - 10)
     for i in range(start, K):
         # Only showing the last 10
-        if (i % (row * col) == 0) or (i == 0):
+        if (i - start) % (row * col) == 0:
             fig = plt.figure(frameon=False)
             fig.suptitle("Showing last 10 Bootstrap Trials")
             it = 1
-- 
2.43.0


From edf3fec7e8b53bc53256a1e16a4ac32941978688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 56/70] fix: reject group lists of another length than the
 parameters

---
 src/SALib/sample/latin.py    | 4 ++++
 src/SALib/util/util_funcs.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/SALib/sample/latin.py b/src/SALib/sample/latin.py
index a818348..14bc0f9 100644
--- a/src/SALib/sample/latin.py
+++ b/src/SALib/sample/latin.py
@@ -49,6 +49,10 @@ def sample(problem, N, seed: Optional[Union[int, np.random.Generator, None]] = N
 
     groups = problem.get("groups")
     if groups:
+        if len(groups) != problem["num_vars"]:
+            raise ValueError(
+                "Number of entries in 'groups' should be the same as in 'names'"
+            )
         num_groups = len(set(groups))
         G, group_names = compute_groups_matrix(groups)
     else:
diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 3a1930c..bc44924 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -135,6 +135,10 @@ def _check_groups(problem):
     groups = problem.get("groups")
     if not groups:
         return False
+    if len(groups) != len(problem["names"]):
+        raise ValueError(
+            "Number of entries in 'groups' should be the same as in 'names'"
+        )
     if groups == problem["names"]:
         return False
 
-- 
2.43.0


From b24c4e61ce5b9e9b3ba6715629ce19ebfef34cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 57/70] fix: reject bounds of another length than the
 parameters with distributions

---
 src/SALib/util/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index c059ef2..60914c1 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -82,6 +82,11 @@ def scale_samples(params: np.ndarray, problem: Dict):
             msg += "Num parameters: {}".format(params.shape[1])
             msg += "Num distributions: {}".format(len(dists))
             raise ValueError(msg)
+        if params.shape[1] != len(bounds):
+            msg = "Mismatch in number of parameters and bounds.\n"
+            msg += "Num parameters: {}, ".format(params.shape[1])
+            msg += "Num bounds: {}".format(len(bounds))
+            raise ValueError(msg)
 
         params = _nonuniform_scale_samples(params, bounds, dists)
 
-- 
2.43.0


From 31c87c2bbeeb59d511866a541f238a35c6744f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 58/70] fix: reject inputs and outputs of different length in
 RBD-FAST and DGSM

---
 src/SALib/analyze/dgsm.py     | 3 +++
 src/SALib/analyze/rbd_fast.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 227a1a1..f926dd4 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -66,6 +66,9 @@ def analyze(
     else:
         raise RuntimeError("Incorrect number of samples in model output file.")
 
+    if X.shape[0] != Y_size:
+        raise RuntimeError("Input X and output Y must have the same number of rows")
+
     if not 0 < conf_level < 1:
         raise RuntimeError("Confidence level must be between 0-1.")
 
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index 44c3da1..146c1d6 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -91,6 +91,9 @@ def analyze(
     D = problem["num_vars"]
     N = Y.size
 
+    if X.shape[0] != N:
+        raise RuntimeError("Input X and output Y must have the same number of rows")
+
     # Calculate and Output the First Order Value
     Si = ResultDict((k, [None] * D) for k in ["S1", "S1_conf"])
     Si["names"] = problem["names"]
-- 
2.43.0


From 3f5a7564053e0acf50422355f4fbafc05a2246b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 59/70] fix: reject HDMR inputs with another number of columns
 than parameters

---
 src/SALib/analyze/hdmr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index ff4f2e4..8729650 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -184,6 +184,11 @@ def analyze(
 
     # Initial part: Check input arguments and define HDMR variables
     settings = _check_settings(X, Y, maxorder, maxiter, m, K, R, alpha, lambdax)
+    if X.shape[1] != problem["num_vars"]:
+        raise RuntimeError(
+            f"Dimension mismatch. The number of columns of X ({X.shape[1]}) should"
+            f" match the number of parameters ({problem['num_vars']})"
+        )
     init_vars = _init(X, Y, settings, random)
 
     # Sensitivity Analysis Computation with/without bootstrapping
-- 
2.43.0


From 2f002bacf7e1ec6444c800bc6e7939b26469b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 60/70] fix: reject the analysis of results that do not match
 the samples

---
 src/SALib/util/problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index a683ed4..8e23b86 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -561,6 +561,11 @@ class ProblemSpec(dict):
         return tmp_f
 
     def _wrap_analysis(self, func, *args, **kwargs):
+        if self._samples is not None and len(self._samples) != len(self._results):
+            msg = "Mismatched number of results: Expected "
+            msg += "{} rows, got {}".format(len(self._samples), len(self._results))
+            raise ValueError(msg)
+
         # Create function of the output values, passing X if expected
         takes_X = "X" in signature(func).parameters
         if len(args) > 0:
-- 
2.43.0


From dd298d48078824bb58fe2d208f4db05c687bfe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 61/70] fix: accept the documented iteration limits of enhanced
 HDMR backfitting

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 12239dd..d243f3d 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -339,8 +339,8 @@ def _check_args(
     if extended_base:
         max_iter = None
     else:
-        if max_iter not in np.arange(100, 1000):
-            raise ValueError("'max_iter' should be between 100 and 1000")
+        if max_iter not in np.arange(1, 1001):
+            raise ValueError("'max_iter' should be between 1 and 1000")
 
     if l2_penalty < 0.0 or l2_penalty > 10:
         raise ValueError("'l2_penalty' should be in between 0 and 10")
-- 
2.43.0


From c09c494d7383c1572b731b4e8fa174453de96a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 62/70] fix: stop enhanced HDMR backfitting after max_iter
 iterations

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index d243f3d..9740c21 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1071,7 +1071,7 @@ def _first_order(b_m1, Y_idx, max_iter, l2_penalty, hdmr, t):
         var_max = np.absolute(var_old - np.square(hdmr.x[: hdmr.tnt1, t])).max()
         iter += 1
 
-        if (var_max < 1e-4) or (iter > max_iter):
+        if (var_max < 1e-4) or (iter >= max_iter):
             break
 
         var_old = np.square(hdmr.x[: hdmr.tnt1, t])
@@ -1165,7 +1165,7 @@ def _second_order(b_m2, Y_res, max_iter, l2_penalty, hdmr, t):
         ).max()
         iter += 1
 
-        if (var_max < 1e-4) or (iter > max_iter):
+        if (var_max < 1e-4) or (iter >= max_iter):
             break
 
         var_old = np.square(hdmr.x[hdmr.tnt1 : hdmr.tnt1 + hdmr.tnt2, t])
-- 
2.43.0


From 5dc3a2d2adf151fecaf1690bc507048263a044ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 63/70] fix: keep the methods of an analysis when its results
 are copied or pickled

---
 src/SALib/util/results.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/SALib/util/results.py b/src/SALib/util/results.py
index 5188250..fc2b32c 100644
--- a/src/SALib/util/results.py
+++ b/src/SALib/util/results.py
@@ -1,3 +1,5 @@
+from types import MethodType
+
 import pandas as pd  # type: ignore
 from SALib.plotting.bar import plot as barplot
 
@@ -12,6 +14,18 @@ class ResultDict(dict):
     def __init__(self, *args, **kwargs):
         super(ResultDict, self).__init__(*args, **kwargs)
 
+    def __getstate__(self):
+        # Methods specific to an analysis are bound to this very object
+        return {
+            k: v.__func__ if isinstance(v, MethodType) else v
+            for k, v in self.__dict__.items()
+        }
+
+    def __setstate__(self, state):
+        self.__dict__.update(
+            (k, MethodType(v, self) if callable(v) else v) for k, v in state.items()
+        )
+
     def to_df(self):
         """Convert dict structure into Pandas DataFrame."""
         return pd.DataFrame(
-- 
2.43.0


From be1d88220727e81d3bdf65a43a581e30bcd053ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 64/70] fix: plot HDMR results after emulating inputs without
 observations

---
 src/SALib/analyze/hdmr.py  | 3 +++
 src/SALib/plotting/hdmr.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 8729650..7fbd5fe 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -917,6 +917,9 @@ def emulate(self, X, Y=None):
 
     if Y is not None:
         self["Y_test"] = Y
+    else:
+        # Observations of an earlier call do not belong to these inputs
+        self.pop("Y_test", None)
 
     # Add the mean output (zeroth order term)
     self["emulated"] = np.sum(Y_em, axis=1) + np.mean(Em["f0"])
diff --git a/src/SALib/plotting/hdmr.py b/src/SALib/plotting/hdmr.py
index ac3a5e0..acba882 100644
--- a/src/SALib/plotting/hdmr.py
+++ b/src/SALib/plotting/hdmr.py
@@ -90,7 +90,7 @@ def plot(Si):
     fig.tight_layout()
     plt.show()
 
-    if "emulated" in Si:
+    if "emulated" in Si and "Y_test" in Si:
         emulated = Si["emulated"]
         # Sum of squared residuals
         Y_test = Si["Y_test"]
-- 
2.43.0


From be7dd4e3557e33e70ed3d7dadd9d08a04422697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 65/70] fix: leave other figures open when plotting HDMR
 results

---
 src/SALib/plotting/hdmr.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/SALib/plotting/hdmr.py b/src/SALib/plotting/hdmr.py
index acba882..40b412b 100644
--- a/src/SALib/plotting/hdmr.py
+++ b/src/SALib/plotting/hdmr.py
@@ -12,9 +12,6 @@ import numpy as np
 
 
 def plot(Si):
-    # Close all figures
-    plt.close("all")
-
     # Extract necessary data from Si
     try:
         problem = Si.problem
-- 
2.43.0


From fa62ed06ab6fa22e9990817fe75306e1dd79b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 66/70] fix: let enhanced HDMR emulators be pickled

---
 src/SALib/analyze/enhanced_hdmr.py | 56 +++++++++++++++---------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9740c21..d92be71 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -16,6 +16,34 @@ from ..util import read_param_file, ResultDict
 
 __all__ = ["analyze", "cli_parse", "cli_action"]
 
+CoreParams = namedtuple(
+    "CoreParams",
+    [
+        "N",
+        "d",
+        "max_order",
+        "ext_base",
+        "subset",
+        "p_o",
+        "nc1",
+        "nc2",
+        "nc3",
+        "nc_t",
+        "nt1",
+        "nt2",
+        "nt3",
+        "tnt1",
+        "tnt2",
+        "tnt3",
+        "a_tnt",
+        "x",
+        "idx",
+        "beta",
+        "gamma",
+        "f0",
+    ],
+)
+
 
 def analyze(
     problem: Dict,
@@ -500,34 +528,6 @@ def _core_params(
         else np.argsort(np.random.rand(N, bootstrap), axis=0)[:subset]
     )
 
-    CoreParams = namedtuple(
-        "CoreParams",
-        [
-            "N",
-            "d",
-            "max_order",
-            "ext_base",
-            "subset",
-            "p_o",
-            "nc1",
-            "nc2",
-            "nc3",
-            "nc_t",
-            "nt1",
-            "nt2",
-            "nt3",
-            "tnt1",
-            "tnt2",
-            "tnt3",
-            "a_tnt",
-            "x",
-            "idx",
-            "beta",
-            "gamma",
-            "f0",
-        ],
-    )
-
     n_comp_func = cp["n_comp_func"]
     n_coeff = cp["n_coeff"]
     hdmr = CoreParams(
-- 
2.43.0


From d8bb33d70c525b474ee1a6b5aeed95d317c1672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 67/70] fix: leave the caller's warning filters and format
 alone in delta analysis

---
 src/SALib/analyze/delta.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 0e7474a..058f45d 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -7,6 +7,7 @@ import pandas as pd
 from . import common_args
 from ..util import read_param_file, ResultDict
 
+from contextlib import contextmanager
 import warnings
 import json
 
@@ -35,6 +36,20 @@ def custom_warning_formatter(message, category, filename, lineno, line=None):
     return f"{message}\n"
 
 
+@contextmanager
+def _concise_warnings():
+    """Show warnings of the analysis once and without their origin in the code."""
+    formatwarning = warnings.formatwarning
+    with warnings.catch_warnings():
+        warnings.formatwarning = custom_warning_formatter
+        warnings.simplefilter("once")
+        try:
+            yield
+        finally:
+            warnings.formatwarning = formatwarning
+
+
+@_concise_warnings()
 def analyze(
     problem: Dict,
     X: np.ndarray,
@@ -163,8 +178,6 @@ def analyze(
         np.random.seed(seed)
 
     valid_methods = {"delta", "sobol", "all"}
-    warnings.formatwarning = custom_warning_formatter
-    warnings.simplefilter("once")
 
     if X.shape[0] != Y.shape[0]:
         raise RuntimeError("Input X and output Y must have the same number of rows")
-- 
2.43.0


From 0f91371b4048da6fe4a09bbc685f1f9a4772ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 68/70] fix: reject outputs of more than one dimension in fast,
 rbd_fast and delta

---
 src/SALib/analyze/delta.py    | 5 +++++
 src/SALib/analyze/fast.py     | 5 +++++
 src/SALib/analyze/rbd_fast.py | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 058f45d..4407e67 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -179,6 +179,11 @@ def analyze(
 
     valid_methods = {"delta", "sobol", "all"}
 
+    if Y.ndim != 1:
+        raise RuntimeError(
+            "Y must be a one-dimensional array: analyze one output at a time."
+        )
+
     if X.shape[0] != Y.shape[0]:
         raise RuntimeError("Input X and output Y must have the same number of rows")
     if not 0 < conf_level < 1:
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index fb94247..04197f5 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -71,6 +71,11 @@ def analyze(
     if not 0 < conf_level < 1:
         raise RuntimeError("Confidence level must be between 0-1.")
 
+    if Y.ndim != 1:
+        raise RuntimeError(
+            "Y must be a one-dimensional array: analyze one output at a time."
+        )
+
     D = problem["num_vars"]
 
     if Y.size % (D) == 0:
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index 146c1d6..17b1163 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -88,6 +88,11 @@ def analyze(
     if not 0 < conf_level < 1:
         raise RuntimeError("Confidence level must be between 0-1.")
 
+    if Y.ndim != 1:
+        raise RuntimeError(
+            "Y must be a one-dimensional array: analyze one output at a time."
+        )
+
     D = problem["num_vars"]
     N = Y.size
 
-- 
2.43.0


From 72a0a831ea3d157b21c25ced3b47db5b823f0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 69/70] fix: enhanced HDMR pseudo-inverse kept singular values
 below the rank tolerance

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index d92be71..4911f91 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -965,8 +965,8 @@ def _d_morph(b_m, cost, Y_idx, subset, hdmr):
     a = (b_m.T @ b_m) / subset  # LHS
     b = (b_m.T @ Y_idx) / subset  # RHS
     try:
-        # Pseudo-Inverse of LHS
-        a_pinv = pinv(a, hermitian=True)
+        # Pseudo-Inverse of LHS, with the tolerance that decides its rank
+        a_pinv = pinv(a, rcond=len(a) * np.finfo(float).eps, hermitian=True)
         rank = matrix_rank(a)
         # Least-Square Solution
         x = a_pinv @ b
-- 
2.43.0


From 0892203c7cd7e2e88c488460165e5e3794226f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 70/70] fix: print every row and column of the indices

---
 src/SALib/analyze/dgsm.py        | 2 +-
 src/SALib/analyze/discrepancy.py | 2 +-
 src/SALib/analyze/fast.py        | 2 +-
 src/SALib/analyze/ff.py          | 2 +-
 src/SALib/analyze/morris.py      | 2 +-
 src/SALib/analyze/pawn.py        | 2 +-
 src/SALib/analyze/rbd_fast.py    | 2 +-
 src/SALib/analyze/rsa.py         | 2 +-
 src/SALib/analyze/sobol.py       | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index f926dd4..643a0c0 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -100,7 +100,7 @@ def analyze(
         )
 
     if print_to_console:
-        print(S.to_df())
+        print(S.to_df().to_string())
 
     return S
 
diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index d85b42a..696754f 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -120,7 +120,7 @@ def analyze(
     Si["s_discrepancy"] = s_discrepancy
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index 04197f5..d582db3 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -107,7 +107,7 @@ def analyze(
         Si["ST_conf"][i] = ST_d_conf
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index e3fbb0d..983afc2 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -91,7 +91,7 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
 
     if print_to_console:
         for S in Si.to_df():
-            print(S)
+            print(S if S is None else S.to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index efb7caa..2f4cc67 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -168,7 +168,7 @@ def analyze(
     )
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index b757631..cf17cfb 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -171,7 +171,7 @@ def analyze(
     Si["names"] = var_names
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index 17b1163..9b4729e 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -110,7 +110,7 @@ def analyze(
         Si["S1_conf"][i] = bootstrap(X[:, i], Y, M, num_resamples, conf_level, rng)
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index b2fd3a9..5c8f4f6 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -133,7 +133,7 @@ def analyze(
     Si.plot = MethodType(plot, Si)
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 6ecab33..f53cdb8 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -205,7 +205,7 @@ def analyze(
     if print_to_console:
         res = S.to_df()
         for df in res:
-            print(df)
+            print(df.to_string())
 
     return S
 
-- 
2.43.0

