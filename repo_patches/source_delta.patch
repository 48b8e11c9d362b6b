From 4930e2c860d2ec16d0a5531372fc405e52b55129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 01/37] fix: reject sequences with missing values as non-binary

nunique() ignores missing values, so [0, 1, None] was accepted as binary
and the missing elements were silently counted as tails (or crashed).
---
 src/coinflip/_randtests/common/core.py | 2 +-
 src/coinflip/cli/parsing.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 8f985ac..108d0b1 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -87,7 +87,7 @@ def randtest(min_n=2):
             else:
                 series = pd.Series(sequence)
 
-            if series.nunique() != 2:
+            if series.isna().any() or series.nunique() != 2:
                 raise NonBinarySequenceError()
 
             n = len(series)
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 795297d..53e4d24 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -57,7 +57,7 @@ def parse_text(data_file) -> pd.Series:
         raise MultipleColumnsError(ncols)
     series = df.iloc[:, 0]
 
-    if series.nunique() != 2:
+    if series.isna().any() or series.nunique() != 2:
         raise NonBinarySequenceError()
 
     series = series.infer_objects()
-- 
2.43.0


From 9292454d5a06aadace5c7ef8bcda53add414b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 02/37] fix: make test results independent of index and
 extension dtypes

Slicing a Series with a float or multi index is label-based, so blocks
were wrong or raised KeyError. Categorical series broke the random walks,
and datetime faces never equalled the elements of the template windows.
---
 src/coinflip/_randtests/common/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 108d0b1..7a981bf 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -82,10 +82,9 @@ def randtest(min_n=2):
     def decorator(func):
         @wraps(func)
         def wrapper(sequence, ctx: Progress = None, **kwargs):
-            if isinstance(sequence, pd.Series):
-                series = sequence
-            else:
-                series = pd.Series(sequence)
+            series = pd.Series(sequence)
+            # tests rely on a positional index and a plain numpy dtype
+            series = pd.Series(series.to_numpy())
 
             if series.isna().any() or series.nunique() != 2:
                 raise NonBinarySequenceError()
@@ -94,7 +93,7 @@ def randtest(min_n=2):
             if n < min_n:
                 raise MinimumInputError(n, min_n)
 
-            values = series.unique()
+            values = series.drop_duplicates().tolist()
             heads, tails = infer_faces(tuple(values))
 
             result = func(series, heads, tails, ctx, **kwargs)
-- 
2.43.0


From 26b41064af9676fcfdd0deaf01552140569846dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 03/37] fix: do not share cached faces between equal values of
 different types

1 == True == 1.0, so lru_cache handed the faces of an earlier sequence to
a later one, e.g. cusum([True, False, ...]) crashed after any test of
[1, 0, ...], and results were rendered with another sequence's faces.
---
 src/coinflip/_randtests/common/core.py   | 2 --
 src/coinflip/_randtests/common/pprint.py | 2 --
 src/coinflip/_randtests/frequency.py     | 3 ---
 3 files changed, 7 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 7a981bf..7648e27 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import lru_cache
 from functools import wraps
 from typing import Dict
 from typing import List
@@ -105,7 +104,6 @@ def randtest(min_n=2):
     return decorator
 
 
-@lru_cache()
 def infer_faces(unique_values: Tuple[Face, Face]) -> Tuple[Face, Face]:
     """Infers the `heads` and `tails` faces from a list of unique values
 
diff --git a/src/coinflip/_randtests/common/pprint.py b/src/coinflip/_randtests/common/pprint.py
index abbd1ca..2b15f05 100644
--- a/src/coinflip/_randtests/common/pprint.py
+++ b/src/coinflip/_randtests/common/pprint.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Iterable
 from typing import Tuple
 
@@ -21,7 +20,6 @@ def make_warning(msg: str) -> Table:
     return grid
 
 
-@lru_cache()
 def determine_rep(heads, tails) -> Tuple[str, str]:
     """Determine single-character representations of each binary value
 
diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 1a6c84e..5c1ed8d 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -1,6 +1,5 @@
 from collections import Counter
 from dataclasses import dataclass
-from functools import lru_cache
 from math import ceil
 from math import erfc
 from math import sqrt
@@ -38,12 +37,10 @@ class FaceCounts(NamedTuple):
     tails: FaceCount
 
     @property
-    @lru_cache()
     def max(self):
         return max(*self, key=attrgetter("count"))
 
     @property
-    @lru_cache()
     def min(self):
         return min(*self, key=attrgetter("count"))
 
-- 
2.43.0


From ef8fd8eb17f5e738dcc97729232552af6deea0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 04/37] fix: list both faces in monobit results of balanced
 sequences

max and min both picked heads when the counts were equal.
---
 src/coinflip/_randtests/frequency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 5c1ed8d..c69b619 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -42,7 +42,7 @@ class FaceCounts(NamedTuple):
 
     @property
     def min(self):
-        return min(*self, key=attrgetter("count"))
+        return min(*reversed(self), key=attrgetter("count"))
 
     @classmethod
     def from_series(cls, series, heads, tails):
-- 
2.43.0


From c19c8df02247b12e6abfc5c17ffa34b2d0053e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 05/37] fix: calculate the random excursions probabilities
 instead of rounding them

The rounded tables do not sum to 1, which scipy.stats.chisquare rejects
with a ValueError for any sequence, also aborting `coinflip run`.
---
 src/coinflip/_randtests/random_walk.py | 21 ++++++++++-----------
 src/coinflip/randtests_refimpl.py      | 17 ++++++-----------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index c70ca96..7eaed9f 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -119,16 +119,15 @@ class CusumTestResult(TestResult):
 states = [-4, -3, -2, -1, 1, 2, 3, 4]
 df = 5
 
-# TODO calculate these dynamically
-state_probabilities = {
-    1: [0.5000, 0.2500, 0.1250, 0.0625, 0.0312, 0.0312],
-    2: [0.7500, 0.0625, 0.0469, 0.0352, 0.0264, 0.0791],
-    3: [0.8333, 0.0278, 0.0231, 0.0193, 0.0161, 0.0804],
-    4: [0.8750, 0.0156, 0.0137, 0.0120, 0.0105, 0.0733],
-    5: [0.9000, 0.0100, 0.0090, 0.0081, 0.0073, 0.0656],
-    6: [0.9167, 0.0069, 0.0064, 0.0058, 0.0053, 0.0588],
-    7: [0.9286, 0.0051, 0.0047, 0.0044, 0.0041, 0.0531],
-}
+
+def calc_state_probabilities(state):
+    """Probabilities of a state occuring 0, 1, ..., df or more times in a cycle"""
+    noreturn = 1 / (2 * abs(state))
+    inner_probs = [
+        noreturn ** 2 * (1 - noreturn) ** (count - 1) for count in range(1, df)
+    ]
+    return [1 - noreturn, *inner_probs, noreturn * (1 - noreturn) ** (df - 1)]
+
 
 
 @randtest()
@@ -162,7 +161,7 @@ def random_excursions(series, heads, tails, ctx):
 
     results = {}
     for state in states:
-        probabilities = state_probabilities[abs(state)]
+        probabilities = calc_state_probabilities(state)
         expected_bincounts = [ncycles * prob for prob in probabilities]
 
         bincounts = state_count_bins[state].values()
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 17f2499..6908285 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -421,16 +421,6 @@ def random_excursions(sequence: List[Literal[0, 1]]):
     states = [-4, -3, -2, -1, 1, 2, 3, 4]
     state_count_bins = {state: Bins(range(6)) for state in states}
 
-    state_probabilities = {
-        1: [0.5000, 0.2500, 0.1250, 0.0625, 0.0312, 0.0312],
-        2: [0.7500, 0.0625, 0.0469, 0.0352, 0.0264, 0.0791],
-        3: [0.8333, 0.0278, 0.0231, 0.0193, 0.0161, 0.0804],
-        4: [0.8750, 0.0156, 0.0137, 0.0120, 0.0105, 0.0733],
-        5: [0.9000, 0.0100, 0.0090, 0.0081, 0.0073, 0.0656],
-        6: [0.9167, 0.0069, 0.0064, 0.0058, 0.0053, 0.0588],
-        7: [0.9286, 0.0051, 0.0047, 0.0044, 0.0041, 0.0531],
-    }
-
     oscillations = [bit if bit == 1 else -1 for bit in sequence]
     cusums = accumulate(oscillations)
 
@@ -446,7 +436,12 @@ def random_excursions(sequence: List[Literal[0, 1]]):
     statistics = []
     pvalues = []
     for state in states:
-        probabilities = state_probabilities[abs(state)]
+        noreturn = 1 / (2 * abs(state))
+        probabilities = [
+            1 - noreturn,
+            *(noreturn ** 2 * (1 - noreturn) ** (k - 1) for k in range(1, 5)),
+            noreturn * (1 - noreturn) ** 4,
+        ]
         expected_bincounts = [ncycles * prob for prob in probabilities]
 
         bincounts = state_count_bins[state].values()
-- 
2.43.0


From 868ddfc788711faef2a28e0e798b576cdbf7b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 06/37] fix: calculate the overlapping template probabilities
 in the refimpl

The rounded table does not sum to 1, which scipy.stats.chisquare rejects,
and was only ever valid for a lambda of 2.
---
 src/coinflip/randtests_refimpl.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 6908285..6daa50e 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -3,6 +3,7 @@ from collections import defaultdict
 from itertools import accumulate
 from itertools import product
 from math import erfc
+from math import exp
 from math import floor
 from math import log
 from math import log2
@@ -17,6 +18,7 @@ from more_itertools import split_at
 from more_itertools import windowed
 from scipy.fft import fft
 from scipy.special import gammaincc
+from scipy.special import hyp1f1
 from scipy.stats import chisquare
 from scipy.stats import norm
 from typing_extensions import Literal
@@ -227,7 +229,13 @@ def overlapping_template_matching(
     nblocks = n // blocksize
     trunc_sequence = sequence[: nblocks * blocksize]
 
-    probabilities = [0.367879, 0.183939, 0.137954, 0.099634, 0.069935, 0.140656]
+    lambda_ = (blocksize - template_size + 1) / 2 ** template_size
+    eta = lambda_ / 2
+    probabilities = [exp(-eta)]
+    for matches in range(1, 5):
+        prob = ((eta * exp(-2 * eta)) / 2 ** matches) * hyp1f1(matches + 1, 2, eta)
+        probabilities.append(prob)
+    probabilities.append(1 - sum(probabilities))
     expected_tallies = [prob * nblocks for prob in probabilities]
 
     block_matches = []
-- 
2.43.0


From 13950f2fcbbdf1b01f4922f28620461f1fde5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 07/37] fix: discard the remainder in the refimpl's frequency
 within block

SP800-22 2.2.4 discards unused bits, as randtests does; the partial block
was counted as if it were a full one.
---
 src/coinflip/randtests_refimpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 6daa50e..297609e 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -66,7 +66,7 @@ def frequency_within_block(sequence: List[Literal[0, 1]], blocksize: int):
     nblocks = n // blocksize
 
     deviations = []
-    for block in chunked(sequence, blocksize):
+    for block in chunked(sequence[: nblocks * blocksize], blocksize):
         ones = sum(1 for bit in block if bit == 1)
         prop = ones / blocksize
         dev = prop - 1 / 2
-- 
2.43.0


From 3d10614f5405d8d28ee49c5fb3d889afc035f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 08/37] fix: search every position for non-overlapping template
 matches

SP800-22 2.7.4 slides the window by one bit, and past the match when there
is one; the expected mean and variance assume so. Only windows aligned to
the template size were looked at (and all overlaps in the refimpl).
---
 src/coinflip/_randtests/template.py | 12 +++++++-----
 src/coinflip/randtests_refimpl.py   |  7 +++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 328bf0f..f3c4c39 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -28,7 +28,6 @@ from coinflip._randtests.common.result import make_chisquare_table
 from coinflip._randtests.common.result import make_testvars_table
 from coinflip._randtests.common.result import plot_chi2_dist
 from coinflip._randtests.common.testutils import blocks
-from coinflip._randtests.common.testutils import rawblocks
 from coinflip._randtests.common.testutils import slider
 from coinflip._randtests.common.typing import Face
 from coinflip._randtests.common.typing import Float
@@ -61,8 +60,8 @@ def non_overlapping_template_matching(
     if not template_size:
         template_size = max(min(blocksize // 3, 9), 2)
 
-    nblocks_sub = blocksize // template_size
-    set_task_total(ctx, 1 + nblocks * (nblocks_sub + 1) + 1)
+    nwindows = blocksize - template_size + 1
+    set_task_total(ctx, 1 + nblocks * (nwindows + 1) + 1)
 
     failures = check_recommendations(
         ctx,
@@ -85,9 +84,12 @@ def non_overlapping_template_matching(
     template_block_matches = defaultdict(lambda: defaultlist(int))
     for i, block in enumerate(blocks(series, blocksize)):
         matches = defaultdict(int)
+        next_pos = defaultdict(int)  # i.e. after a template's last match
 
-        for window_tup in rawblocks(block, template_size):
-            matches[window_tup] += 1
+        for pos, window_tup in enumerate(slider(tuple(block), template_size)):
+            if pos >= next_pos[window_tup]:
+                matches[window_tup] += 1
+                next_pos[window_tup] = pos + template_size
 
             advance_task(ctx)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 297609e..b524596 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -199,9 +199,12 @@ def non_overlapping_template_matching(
     template_block_matches = defaultdict(lambda: defaultlist(int))
     for i, block in enumerate(chunked(sequence, blocksize)):
         matches = defaultdict(int)
+        next_pos = defaultdict(int)
 
-        for window in windowed(block, template_size):
-            matches[window] += 1
+        for pos, window in enumerate(windowed(block, template_size)):
+            if pos >= next_pos[window]:
+                matches[window] += 1
+                next_pos[window] = pos + template_size
 
         for template, matches in matches.items():
             template_block_matches[template][i] = matches
-- 
2.43.0


From d8ce0041b7e480eb66efe05ace545e332b74459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 09/37] fix: correct the expected linear complexity of
 odd-lengthed blocks

The sign was applied after the power, so (-1)^(M+1) was always -1.
---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/randtests_refimpl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index ccf4936..646667d 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -69,7 +69,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
 
     mean_expect = (
         blocksize / 2
-        + (9 + (-(1 ** (blocksize + 1)))) / 36
+        + (9 + (-1) ** (blocksize + 1)) / 36
         - (blocksize / 3 + 2 / 9) / 2 ** blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index b524596..ce1d7a1 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -353,7 +353,7 @@ def linear_complexity(sequence: List[Literal[0, 1]], blocksize: int):
     probabilities = [0.010417, 0.03125, 0.125, 0.5, 0.25, 0.0625, 0.020833]
     mean_expect = (
         blocksize / 2
-        + (9 + (-(1 ** (blocksize + 1)))) / 36
+        + (9 + (-1) ** (blocksize + 1)) / 36
         - (blocksize / 3 + 2 / 9) / 2 ** blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
-- 
2.43.0


From 71b4472ac5a54396259b2f41cb79318101c5258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 10/37] fix: choose template blocksizes which fit very short
 sequences

The default blocksize exceeded sequences shorter than 6 elements (no blocks
at all), or was smaller than the template for 2 and 3 elements, so p-values
were NaN.
---
 src/coinflip/_randtests/template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index f3c4c39..290f623 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -52,7 +52,7 @@ def non_overlapping_template_matching(
     n = len(series)
 
     if not blocksize:
-        blocksize = max(ceil(0.01 * n), 6)
+        blocksize = min(max(ceil(0.01 * n), 6), n)
         if blocksize % 2 != 0:
             blocksize -= 1
     nblocks = n // blocksize
@@ -201,7 +201,7 @@ def overlapping_template_matching(
     df = matches_ceil  # there are matches_ceil + 1 independent scores
 
     if not blocksize:
-        blocksize = floor(sqrt(n))
+        blocksize = max(floor(sqrt(n)), 2)
     nblocks = n // blocksize
 
     if not template_size:
-- 
2.43.0


From a8c3e45b5361a39fdac1fccd7fa9eafc10e9e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 11/37] fix: prevent NaN p-values for uniform patterns in
 serial and entropy tests

The statistics are never negative, but rounding errors could make them so,
e.g. serial([0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 1, 1], blocksize=3).
---
 src/coinflip/_randtests/entropy.py |  3 ++-
 src/coinflip/_randtests/serial.py  | 10 +++++++---
 src/coinflip/randtests_refimpl.py  | 13 ++++++++-----
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index 1ad45e4..3ddca7e 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -64,7 +64,8 @@ def approximate_entropy(series, heads, tails, ctx, blocksize=None):
         advance_task(ctx)
 
     approx_entropy = phis[blocksize] - phis[blocksize + 1]
-    chi2 = 2 * n * (log(2) - approx_entropy)
+    # rounding errors can put chi2 below 0, where gammaincc is undefined
+    chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)
     p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
 
     advance_task(ctx)
diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 29b84d3..4e1124b 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -63,13 +63,17 @@ def serial(series, heads, tails, ctx, blocksize=None):
 
     advance_task(ctx)
 
-    normsum_delta1 = normalised_sums[blocksize] - normalised_sums[blocksize - 1]
+    # rounding errors can put deltas below 0, where gammaincc is undefined
+    normsum_delta1 = max(
+        normalised_sums[blocksize] - normalised_sums[blocksize - 1], 0.0
+    )
     p1 = gammaincc(2 ** (blocksize - 2), normsum_delta1 / 2)
 
-    normsum_delta2 = (
+    normsum_delta2 = max(
         normalised_sums[blocksize]
         - 2 * normalised_sums[blocksize - 1]
-        + normalised_sums[blocksize - 2]
+        + normalised_sums[blocksize - 2],
+        0.0,
     )
     p2 = gammaincc(2 ** (blocksize - 3), normsum_delta2 / 2)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index ce1d7a1..d302219 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -331,10 +331,13 @@ def serial(sequence: List[Literal[0, 1]], blocksize: int):
         normalised_sums[window_size] = normsum
 
     normsum_deltas = [
-        normalised_sums[blocksize] - normalised_sums[blocksize - 1],
-        normalised_sums[blocksize]
-        - 2 * normalised_sums[blocksize - 1]
-        + normalised_sums[blocksize - 2],
+        max(normalised_sums[blocksize] - normalised_sums[blocksize - 1], 0.0),
+        max(
+            normalised_sums[blocksize]
+            - 2 * normalised_sums[blocksize - 1]
+            + normalised_sums[blocksize - 2],
+            0.0,
+        ),
     ]
 
     pvalues = [
@@ -390,7 +393,7 @@ def approximate_entropy(sequence: List[Literal[0, 1]], blocksize: int):
         phis.append(phi)
 
     approx_entropy = phis[0] - phis[1]
-    chi2 = 2 * n * (log(2) - approx_entropy)
+    chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)
     p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
 
     return chi2, p
-- 
2.43.0


From 8e16e9da1e421b4dd0ac74f914b3b1063e8c3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 12/37] fix: keep cusum p-values within 0 and 1

e.g. cusum([0, 1, 0, 1]) had a p-value of 1.046.
---
 src/coinflip/_randtests/random_walk.py | 1 +
 src/coinflip/randtests_refimpl.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 7eaed9f..8cfd7f5 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -67,6 +67,7 @@ def cusum(series, heads, tails, ctx, reverse=False):
             for k in np.arange(start2, stop, 1)
         )
     )
+    p = min(max(p, 0.0), 1.0)  # the truncated series can overshoot
 
     advance_task(ctx)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index d302219..2b468f8 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -427,6 +427,7 @@ def cusum(sequence: List[Literal[0, 1]], reverse: bool = False):
             )
         )
     )
+    p = min(max(p, 0.0), 1.0)
 
     return max_cusum, p
 
-- 
2.43.0


From 2d299200cb23ecee8ce7d319ff2717c98fc9d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 13/37] fix: use the given blocksize or init_nblocks in
 maurers_universal

Passing only one of them had it silently replaced with the default.
---
 src/coinflip/_randtests/universal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index e767f78..7d0edbc 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -90,11 +90,13 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
 
     if not blocksize or not init_nblocks:
         try:
-            blocksize, init_nblocks = n_defaults[n]
+            default_blocksize, default_init_nblocks = n_defaults[n]
         except KeyError:
-            blocksize = min(max(ceil(log(n)), 2), 16)  # largest blocksize_dists key
-            nblocks = n // blocksize
-            init_nblocks = max(nblocks // 100, 1)
+            default_blocksize = min(max(ceil(log(n)), 2), 16)  # in blocksize_dists
+            nblocks = n // (blocksize or default_blocksize)
+            default_init_nblocks = max(nblocks // 100, 1)
+        blocksize = blocksize or default_blocksize
+        init_nblocks = init_nblocks or default_init_nblocks
 
     init_n = init_nblocks * blocksize
     init_series, segment_series = series[:init_n], series[init_n:]
-- 
2.43.0


From ed3cc87b150362bb91b4a9436010e4acd3381439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 14/37] fix: check the recommendations which are reported to
 the user

SP800-22 2.9.7 recommends 10 * 2^L initial blocks, where L is the blocksize,
so even its own parameters were said to not meet it; the df of overlapping
templates was not what was compared; the minimum for matrices is 38 * 4.
---
 src/coinflip/_randtests/matrix.py    | 2 +-
 src/coinflip/_randtests/template.py  | 2 +-
 src/coinflip/_randtests/universal.py | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index e42c63a..a329a40 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -55,7 +55,7 @@ def binary_matrix_rank(
     failures = check_recommendations(
         ctx,
         {
-            "n ≥ 128": n >= 152,  # nblocks=38, blocksize=4
+            "n ≥ 152": n >= 152,  # nblocks=38, blocksize=4
             "n ≥ 38 * blocksize": n >= 38 * blocksize,
         },
     )
diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 290f623..84fba7c 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -231,7 +231,7 @@ def overlapping_template_matching(
             "min(expected_tallies) > df": min(expected_tallies) > df,
             "λ ≈ 2": isclose(lambda_, 2),
             "len(template) ≈ log2(nblocks)": isclose(template_size, log2(nblocks)),
-            "df ≈ 2 * λ": isclose(template_size, 2 * lambda_),
+            "df ≈ 2 * λ": isclose(df, 2 * lambda_),
         },
     )
 
diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index 7d0edbc..5f096c9 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -111,10 +111,10 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
         {
             "n ≥ 387840": n >= 387840,
             "6 ≤ blocksize ≤ 16": 6 <= blocksize <= 16,
-            "init_nblocks ≈ 10 * 2 ** segment_nblocks": intclose(
-                init_nblocks, 10 * 2 ** segment_nblocks
+            "init_nblocks ≈ 10 * 2 ** blocksize": intclose(
+                init_nblocks, 10 * 2 ** blocksize
             ),
-            "segment_nblocks ≈ ⌈n / blocksize⌉ - init_nblocks": isclose(
+            "segment_nblocks ≈ ⌊n / blocksize⌋ - init_nblocks": isclose(
                 segment_nblocks, floor(n / blocksize) - init_nblocks
             ),
         },
-- 
2.43.0


From 041288c10767e6ee3adae1d3c7095fe3f81a5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 15/37] fix: keep every other element when replacing, inserting
 or deleting in defaultlist

---
 src/coinflip/_randtests/common/collections.py | 102 +++++++-----------
 1 file changed, 37 insertions(+), 65 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 18a8eba..f8542cd 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -5,7 +5,6 @@ from collections.abc import Mapping
 from collections.abc import MutableMapping
 from collections.abc import MutableSequence
 from functools import lru_cache
-from itertools import chain
 from numbers import Real
 from typing import Any
 from typing import Callable
@@ -168,38 +167,25 @@ class defaultlist(MutableSequence):
             nvalues = len(values)
 
             srange = self._determine_srange(key)
-            if srange:
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-            else:
-                srange_min = srange_max = srange.start
-
-            for i in srange:
-                try:
-                    del self._ddict[i]
-                except KeyError:
-                    pass
-
-            diff = nvalues - len(srange)
-            if diff:
-                keys = list(self._ddict.keys())
-
-                threshold = srange_min + nvalues
-                reindexed_subdict = {}
+            if srange.step == 1:
+                start = srange.start
 
-                mid_keys = [k for k in keys if srange_min <= k < srange_max]
-                for i, k in enumerate(sorted(mid_keys), start=threshold):
-                    reindexed_subdict[i] = self._ddict[k]
+                self._delete(srange)
+                for k in sorted((k for k in self._ddict if k >= start), reverse=True):
+                    self._ddict[k + nvalues] = self._ddict.pop(k)
 
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
-                for k in larger_keys:
-                    i = k + diff
-                    reindexed_subdict[i] = self._ddict[k]
+                for i, v in enumerate(values, start=start):
+                    self._ddict[i] = v
 
-                self._ddict.update(reindexed_subdict)
+            elif nvalues == len(srange):
+                for i, v in zip(srange, values):
+                    self._ddict[i] = v
 
-            for i, v in enumerate(values, start=srange_min):
-                self[i] = v
+            else:
+                raise ValueError(
+                    f"attempt to assign sequence of size {nvalues} "
+                    f"to extended slice of size {len(srange)}"
+                )
 
         else:
             defaultlist._raise_type_error(type(key))
@@ -207,48 +193,31 @@ class defaultlist(MutableSequence):
     def __delitem__(self, key: Union[int, slice]):
         if isinstance(key, int):
             i = self._actualise_index(key)
-            try:
-                del self._ddict[i]
-            except KeyError:
-                pass
-
-            larger_keys = [k for k in self._ddict.keys() if k > i]
-            reindexed_subdict = {k - 1: self._ddict[k] for k in larger_keys}
-            for k in larger_keys:
-                del self._ddict[k]
-            self._ddict.update(reindexed_subdict)
+            self._delete([i])
 
         elif isinstance(key, slice):
             srange = self._determine_srange(key)
-            if srange:
-                for i in srange:
-                    try:
-                        del self._ddict[i]
-                    except KeyError:
-                        pass
+            self._delete(srange)
 
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-
-                reindexed_subdict = {}
+        else:
+            defaultlist._raise_type_error(type(key))
 
-                mid_keys = [
-                    k for k in self._ddict.keys() if srange_min <= k < srange_max
-                ]
-                for i, k in enumerate(sorted(mid_keys), start=srange_min):
-                    reindexed_subdict[i] = self._ddict[k]
+    def _delete(self, indices: Iterable[int]):
+        n = len(self)
+        removed = sorted(i for i in indices if i < n)
+        if not removed:
+            return
 
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
-                for k in larger_keys:
-                    i = k - len(srange)
-                    reindexed_subdict[i] = self._ddict[k]
+        for i in removed:
+            self._ddict.pop(i, None)
 
-                for k in chain(mid_keys, larger_keys):
-                    del self._ddict[k]
-                self._ddict.update(reindexed_subdict)
+        for k in sorted(self._ddict.keys()):
+            self._ddict[k - bisect_left(removed, k)] = self._ddict.pop(k)
 
-        else:
-            defaultlist._raise_type_error(type(key))
+        # unread elements still count, even when they are now at the end
+        new_n = n - len(removed)
+        if new_n > 0:
+            self._ddict[new_n - 1]
 
     def _actualise_index(self, key: int) -> int:
         if key >= 0:
@@ -266,12 +235,12 @@ class defaultlist(MutableSequence):
         step = slice_.step or 1
 
         if slice_.start is None:
-            start = 0 if step > 0 else len(self)
+            start = 0 if step > 0 else len(self) - 1
         else:
             start = self._actualise_index(slice_.start)
 
         if slice_.stop is None:
-            stop = len(self) if step > 0 else 0
+            stop = len(self) if step > 0 else -1
         else:
             stop = self._actualise_index(slice_.stop)
 
@@ -297,6 +266,9 @@ class defaultlist(MutableSequence):
 
     def insert(self, i: int, value: Any):
         """"""
+        if i < 0:
+            i = max(len(self) + i, 0)
+
         larger_keys = [k for k in self._ddict.keys() if k >= i]
         reindexed_subdict = {k + 1: self._ddict[k] for k in larger_keys}
         for k in larger_keys:
-- 
2.43.0


From d78919000d87ae3a22cd4c02a72dfdb5cb3af01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 16/37] fix: allow Bins to be initialised from iterators and to
 be emptied

---
 src/coinflip/_randtests/common/collections.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index f8542cd..12e130b 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -55,6 +55,8 @@ class Bins(MutableMapping):
     """
 
     def __init__(self, intervals: Iterable[Real]):
+        intervals = list(intervals)
+
         counts = Counter(intervals)
         if any(count > 1 for count in counts.values()):
             raise ValueError("Duplicate intervals for binning were passed")
@@ -77,9 +79,13 @@ class Bins(MutableMapping):
     def __delitem__(self, key: Real):
         value = self._sdict[key]
         del self._sdict[key]
-        self[key] += value
+        if self._sdict:
+            self[key] += value
 
     def _roundkey(self, key: Real):
+        if not self._sdict:
+            raise KeyError(key)
+
         return Bins.find_closest_interval(self.intervals, key)
 
     def __iter__(self):
-- 
2.43.0


From f6ecbeaed08dfd9b90d371a27046f631c245eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 17/37] fix: raise KeyError when looking up keys in an empty
 FloorDict

---
 src/coinflip/_randtests/common/collections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 12e130b..705be22 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -321,6 +321,9 @@ class FloorDict(Mapping):
         self._sdict = SortedDict(dict)
 
     def __getitem__(self, key):
+        if not self._sdict:
+            raise KeyError("No existing keys to floor to")
+
         keys = iter(self._sdict.keys())
         prevkey = next(keys)
         if key < prevkey:
-- 
2.43.0


From edd14d100ba91ab2d1f1d417567451b52039561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 18/37] fix: infer the same dtype for every value of a large
 data file

---
 src/coinflip/cli/parsing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 53e4d24..3096169 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -50,7 +50,8 @@ def parse_text(data_file) -> pd.Series:
     --------
     pandas.read_csv : The pandas method for reading ``data_file``
     """
-    df = pd.read_csv(data_file, header=None)
+    # low_memory=False so that all the values are inferred to have the same dtype
+    df = pd.read_csv(data_file, header=None, low_memory=False)
 
     ncols = len(df.columns)
     if ncols > 1:
-- 
2.43.0


From 5dcb53bfd5d36d1e9f26469e1e15419f92075b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 19/37] fix: report data which cannot be parsed instead of
 crashing

---
 src/coinflip/cli/parsing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 3096169..0bfe4e4 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -1,6 +1,8 @@
 from dataclasses import dataclass
 
 import pandas as pd
+from pandas.errors import EmptyDataError
+from pandas.errors import ParserError
 
 from coinflip._randtests.common.exceptions import NonBinarySequenceError
 
@@ -43,6 +45,8 @@ def parse_text(data_file) -> pd.Series:
     ------
     MultipleColumnsError
         If inputted data contains multiple values per line
+    DataParsingError
+        If inputted data is empty or otherwise not readable as text
     NonBinarySequenceError
         If sequence does not contain only 2 values
 
@@ -51,7 +55,10 @@ def parse_text(data_file) -> pd.Series:
     pandas.read_csv : The pandas method for reading ``data_file``
     """
     # low_memory=False so that all the values are inferred to have the same dtype
-    df = pd.read_csv(data_file, header=None, low_memory=False)
+    try:
+        df = pd.read_csv(data_file, header=None, low_memory=False)
+    except (EmptyDataError, ParserError, UnicodeDecodeError) as e:
+        raise DataParsingError(f"Data could not be parsed: {e}") from e
 
     ncols = len(df.columns)
     if ncols > 1:
-- 
2.43.0


From a906790f80d4584038ef044214dc1681cb6e78f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 20/37] fix: report non-binary sequences from raw binary files
 instead of crashing

---
 src/coinflip/cli/commands.py | 14 +++++---------
 src/coinflip/cli/parsing.py  | 12 +++++++++++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/coinflip/cli/commands.py b/src/coinflip/cli/commands.py
index 012d3a9..0a4fe26 100644
--- a/src/coinflip/cli/commands.py
+++ b/src/coinflip/cli/commands.py
@@ -64,15 +64,11 @@ def run(data, out, binary):
     also be used to generate an informational web document via the report
     command.
     """
-    if not binary:
-        try:
-            series = parse_text(data)
-        except (DataParsingError, NonBinarySequenceError) as e:
-            print_error(e)
-            exit(1)
-
-    else:
-        series = parse_binary(data)
+    try:
+        series = parse_binary(data) if binary else parse_text(data)
+    except (DataParsingError, NonBinarySequenceError) as e:
+        print_error(e)
+        exit(1)
 
     print_series(series)
 
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 0bfe4e4..4043a2e 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -74,6 +74,13 @@ def parse_text(data_file) -> pd.Series:
 
 
 def parse_binary(data_file) -> pd.Series:
+    """Reads the bits of a file, from the most significant of each byte
+
+    Raises
+    ------
+    NonBinarySequenceError
+        If sequence does not contain both ``0`` and ``1``
+    """
     sequence = []
     with open(data_file, "rb") as f:
         bytes_ = f.read()
@@ -83,6 +90,9 @@ def parse_binary(data_file) -> pd.Series:
 
             sequence += bits
 
-    series = pd.Series(sequence)
+    series = pd.Series(sequence, dtype="int64")
+
+    if series.nunique() != 2:
+        raise NonBinarySequenceError()
 
     return series
-- 
2.43.0


From 5d3b80cb4a0e5c1190c3f93a5aa3fdd39989b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 21/37] fix: only offer statistical tests as choices of
 example-run --test

---
 src/coinflip/cli/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/cli/commands.py b/src/coinflip/cli/commands.py
index 0a4fe26..565a5de 100644
--- a/src/coinflip/cli/commands.py
+++ b/src/coinflip/cli/commands.py
@@ -11,6 +11,7 @@ from click import option
 from rich.text import Text
 
 from coinflip import generators
+from coinflip._randtests import __all__ as randtest_names
 from coinflip._randtests.common.exceptions import NonBinarySequenceError
 from coinflip._randtests.common.exceptions import TestError
 from coinflip.cli import console
@@ -19,7 +20,6 @@ from coinflip.cli.parsing import *
 from coinflip.cli.pprint import *
 from coinflip.cli.report import *
 from coinflip.cli.runner import *
-from coinflip.randtests import __all__ as randtest_names
 
 __all__ = ["run", "example_run", "read", "report"]
 
-- 
2.43.0


From 2906142903add0523e1683bac96a29e971a454ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 22/37] fix: report non-binary generated sequences in
 example-run instead of crashing

---
 src/coinflip/cli/commands.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coinflip/cli/commands.py b/src/coinflip/cli/commands.py
index 565a5de..a5deac4 100644
--- a/src/coinflip/cli/commands.py
+++ b/src/coinflip/cli/commands.py
@@ -122,6 +122,10 @@ def example_run(example, length, test):
 
     series = pd.Series(next(generator) for _ in range(length))
     series = series.infer_objects()
+    if series.nunique() != 2:
+        print_error(NonBinarySequenceError())
+        exit(1)
+
     print_series(series)
     console.print()
 
-- 
2.43.0


From 94f73c2631b7194a63452d24ea0e9ddb3e13a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 23/37] fix: count the rows omitted when printing long
 sequences

---
 src/coinflip/cli/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/cli/pprint.py b/src/coinflip/cli/pprint.py
index ad733d0..16b83b0 100644
--- a/src/coinflip/cli/pprint.py
+++ b/src/coinflip/cli/pprint.py
@@ -114,7 +114,7 @@ def pretty_sequence(series, ncols) -> RenderGroup:
                 yield l_arrow + pretty_row(row) + r_arrow
                 yield border
 
-            omit_msg = f"..omitting {nrows - 10} rows.."
+            omit_msg = f"..omitting {nrows - 8} rows.."
             omit_gap = ncols // 2 - len(omit_msg) // 2
             omit_pad = "".join(" " for _ in range(omit_gap))
 
-- 
2.43.0


From c3d3f81e2a7ee7c496c8cdbf2eb0dd3e974a4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 24/37] fix: represent faces which are empty strings

---
 src/coinflip/_randtests/common/pprint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/common/pprint.py b/src/coinflip/_randtests/common/pprint.py
index 2b15f05..3c0b191 100644
--- a/src/coinflip/_randtests/common/pprint.py
+++ b/src/coinflip/_randtests/common/pprint.py
@@ -37,9 +37,9 @@ def determine_rep(heads, tails) -> Tuple[str, str]:
     tails_rep : ``str``
         Character representation of the ``tails``
     """
-    heads_rep = str(heads)[0]
-    tails_rep = str(tails)[0]
-    if heads_rep == tails_rep:
+    heads_rep = str(heads)[:1]
+    tails_rep = str(tails)[:1]
+    if heads_rep == tails_rep or not (heads_rep and tails_rep):
         heads_rep = "1"
         tails_rep = "0"
 
-- 
2.43.0


From 31e02eaacc89ce7e6d998ac1f9c78b48a9744026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 25/37] fix: support linear complexity blocksizes above 1023

---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/randtests_refimpl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index 646667d..05842cb 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -70,7 +70,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
     mean_expect = (
         blocksize / 2
         + (9 + (-1) ** (blocksize + 1)) / 36
-        - (blocksize / 3 + 2 / 9) / 2 ** blocksize
+        - (blocksize / 3 + 2 / 9) * 2.0 ** -blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 2b468f8..dc0051f 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -357,7 +357,7 @@ def linear_complexity(sequence: List[Literal[0, 1]], blocksize: int):
     mean_expect = (
         blocksize / 2
         + (9 + (-1) ** (blocksize + 1)) / 36
-        - (blocksize / 3 + 2 / 9) / 2 ** blocksize
+        - (blocksize / 3 + 2 / 9) * 2.0 ** -blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
 
-- 
2.43.0


From 5a8aa5677f377b38063390c2fa0f176adf57789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 26/37] fix: print monobit values which look like console
 markup as they are

---
 src/coinflip/_randtests/frequency.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index c69b619..e32f9bf 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -9,6 +9,7 @@ from typing import NamedTuple
 
 import altair as alt
 import pandas as pd
+from rich.text import Text
 from scipy.special import gammaincc
 
 from coinflip._randtests.common.core import *
@@ -82,8 +83,8 @@ class MonobitTestResult(TestResult):
         yield self._pretty_result("normalised diff")
 
         counts = make_testvars_table("value", "count")
-        counts.add_row(str(self.counts.max.value), str(self.counts.max.count))
-        counts.add_row(str(self.counts.min.value), str(self.counts.min.count))
+        for face in (self.counts.max, self.counts.min):
+            counts.add_row(Text(str(face.value)), str(face.count))
         yield counts
 
     def plot_counts(self):
-- 
2.43.0


From 5f87fe57dd091ca856e0922afee3aa161f13fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 27/37] fix: complete the progress of serial with blocksizes
 below 3

---
 src/coinflip/_randtests/serial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 4e1124b..7dfe022 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -29,7 +29,8 @@ def serial(series, heads, tails, ctx, blocksize=None):
     if not blocksize:
         blocksize = max(floor(log2(n)) - 2 - 1, 2)
 
-    set_task_total(ctx, (1 + n) * 3 + 2)
+    nsizes = min(blocksize, 3)
+    set_task_total(ctx, (1 + n) * nsizes + 2)
 
     failures = check_recommendations(
         ctx, {"blocksize < ⌊log2(n) - 2⌋": blocksize < floor(log2(n)) - 2}
-- 
2.43.0


From 8cfe7dd3a563e96361ab3a42ac9ff97fd11cd56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 28/37] fix: keep the progress of random excursions variant
 within its total

---
 src/coinflip/_randtests/random_walk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 8cfd7f5..fdb7f0f 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -242,7 +242,7 @@ variant_states = [-9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9]
 def random_excursions_variant(series, heads, tails, ctx):
     n = len(series)
 
-    set_task_total(ctx, 4)
+    set_task_total(ctx, 4 + len(variant_states))
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
-- 
2.43.0


From e9af8000897a86f6883de0ac5e90eb012d55ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 29/37] fix: complete the progress of tests which cannot run

---
 src/coinflip/cli/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/cli/runner.py b/src/coinflip/cli/runner.py
index 1850e7e..3a28411 100644
--- a/src/coinflip/cli/runner.py
+++ b/src/coinflip/cli/runner.py
@@ -223,7 +223,7 @@ def run_all_tests(series: pd.Series) -> Iterator[Tuple[str, TestResult, Exceptio
                 results[name] = result
 
             except TestError as e:
-                progress.update(task, completed=True)
+                progress.update(task, completed=progress.tasks[task].total)
 
                 print_randtest_name(name, "red")
                 print_error(e)
-- 
2.43.0


From bfc4ef7ca9900de02a4b55a6de65ed18d11e1b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 30/37] fix: spectral states the peaks below the threshold as
 such

---
 src/coinflip/_randtests/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/fourier.py b/src/coinflip/_randtests/fourier.py
index a187949..13fc4af 100644
--- a/src/coinflip/_randtests/fourier.py
+++ b/src/coinflip/_randtests/fourier.py
@@ -96,7 +96,7 @@ class SpectralTestResult(TestResult):
         yield self._pretty_result("normalised diff")
 
         yield make_testvars_list(
-            "npeaks above threshold",
+            "npeaks below threshold",
             ("actual", self.nbelow),
             ("expected", self.nbelow_expect),
             ("diff", self.diff),
-- 
2.43.0


From 4e8d6bb072a09be3c0a9bb2b545eb1edebeb76f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 31/37] fix: plot the chi-square distribution which the p-value
 comes from

---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/_randtests/entropy.py    | 2 +-
 src/coinflip/_randtests/matrix.py     | 2 +-
 src/coinflip/_randtests/runs.py       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index 05842cb..1eb40bb 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -154,7 +154,7 @@ class LinearComplexityTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(self.variance_bins))
+        return plot_chi2_dist(self.statistic, df)
 
 
 def berlekamp_massey(sequence: Sequence[Literal[0, 1]]) -> int:
diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index 3ddca7e..0f80eaa 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -126,4 +126,4 @@ class ApproximateEntropyTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, 2 ** (self.blocksize - 1))
+        return plot_chi2_dist(self.statistic, 2 ** self.blocksize)
diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index a329a40..7c81594 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -185,7 +185,7 @@ class BinaryMatrixRankTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(fields(self.rankcounts)))
+        return plot_chi2_dist(self.statistic, len(fields(self.rankcounts)) - 1)
 
 
 def matrix_rank(matrix: Iterable[Iterable[Literal[0, 1]]]) -> Integer:
diff --git a/src/coinflip/_randtests/runs.py b/src/coinflip/_randtests/runs.py
index 47190cd..42272ec 100644
--- a/src/coinflip/_randtests/runs.py
+++ b/src/coinflip/_randtests/runs.py
@@ -255,7 +255,7 @@ class LongestRunsTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(self.maxlen_bins))
+        return plot_chi2_dist(self.statistic, len(self.maxlen_bins) - 1)
 
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 47df479604acd2843aa2662c80c179383e899a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 32/37] fix: escape the faces which reports show

---
 src/coinflip/cli/report.py                    | 2 +-
 src/coinflip/templates/index.html             | 2 +-
 src/coinflip/templates/randtests/monobit.html | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/cli/report.py b/src/coinflip/cli/report.py
index fa0d7ac..da2eae9 100644
--- a/src/coinflip/cli/report.py
+++ b/src/coinflip/cli/report.py
@@ -33,7 +33,7 @@ def load_results(results_path: Path) -> Report:
 
 
 templates_loader = PackageLoader("coinflip")
-templates_env = Environment(loader=templates_loader)
+templates_env = Environment(loader=templates_loader, autoescape=True)
 
 
 def write_report_doc(report: Report, out: Path):
diff --git a/src/coinflip/templates/index.html b/src/coinflip/templates/index.html
index d632bc8..fdbd318 100644
--- a/src/coinflip/templates/index.html
+++ b/src/coinflip/templates/index.html
@@ -10,7 +10,7 @@
         <h1>Report</h1>
         <p>TODO describe data</p>
         {% for markup in result_markups %}
-        {{ markup }}
+        {{ markup | safe }}
         {% endfor %}
     </body>
 </html>
diff --git a/src/coinflip/templates/randtests/monobit.html b/src/coinflip/templates/randtests/monobit.html
index 74e8050..f167f40 100644
--- a/src/coinflip/templates/randtests/monobit.html
+++ b/src/coinflip/templates/randtests/monobit.html
@@ -15,9 +15,9 @@
 <p>Finding the cumulative likelihood a true RNG would have such a difference or greater comes to a p-value of {{ result.p | round(3) }}. The lower the p-value, the less confident we can say that this data is random.</p>
 
 <script type="text/javascript">
- var counts = {{ result.plot_counts().to_json() }}
+ var counts = {{ result.plot_counts().to_dict() | tojson }}
  vegaEmbed("#viz-monobit-counts", counts);
 
- var refdist = {{ result.plot_refdist().to_json() }}
+ var refdist = {{ result.plot_refdist().to_dict() | tojson }}
  vegaEmbed("#viz-monobit-refdist", refdist);
 </script>
-- 
2.43.0


From 3829591cfe2e1d6e0a7503a0f87270965d032841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 33/37] fix: write reports in the encoding which they declare

---
 src/coinflip/cli/report.py        | 2 +-
 src/coinflip/templates/index.html | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/cli/report.py b/src/coinflip/cli/report.py
index da2eae9..a5691fa 100644
--- a/src/coinflip/cli/report.py
+++ b/src/coinflip/cli/report.py
@@ -49,6 +49,6 @@ def write_report_doc(report: Report, out: Path):
         except TemplateNotFound:
             print_warning(f"{template_file} not found")
 
-    with open(out, "w") as f:
+    with open(out, "w", encoding="utf-8") as f:
         report_html = doc.render(result_markups=result_markups)
         f.write(report_html)
diff --git a/src/coinflip/templates/index.html b/src/coinflip/templates/index.html
index fdbd318..718530a 100644
--- a/src/coinflip/templates/index.html
+++ b/src/coinflip/templates/index.html
@@ -1,6 +1,7 @@
 <!DOCTYPE html>
 <html>
     <head>
+        <meta charset="utf-8">
         <title>Report</title>
         <script src="https://cdn.jsdelivr.net/npm/vega@5"></script>
         <script src="https://cdn.jsdelivr.net/npm/vega-lite@4"></script>
-- 
2.43.0


From 6fdc02d21da8a436b48d78951cfe45dbdfcbf444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 34/37] fix: the walk of a cusum result is a list, as it is
 annotated

Comparing two results of cusum (==, in, list.index) raised ValueError, as the
Series had no single truth value.
---
 src/coinflip/_randtests/random_walk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index fdb7f0f..a86bfca 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -79,7 +79,7 @@ def cusum(series, heads, tails, ctx, reverse=False):
         p,
         reverse,
         n,
-        walk,
+        list(walk),
     )
 
 
-- 
2.43.0


From c1db429e4b3961c030543dd0d57f35620ddec3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:36 +0000
Subject: [PATCH 35/37] fix: floats of data files are read precisely

The default parser of pandas is off by an ulp for many floats, so that two
neighbouring values could be read as one: a binary sequence was refused, and one
of three values accepted.
---
 src/coinflip/cli/parsing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 4043a2e..b6ac654 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -54,9 +54,12 @@ def parse_text(data_file) -> pd.Series:
     --------
     pandas.read_csv : The pandas method for reading ``data_file``
     """
-    # low_memory=False so that all the values are inferred to have the same dtype
+    # low_memory=False so that all the values are inferred to have the same dtype,
+    # float_precision so that neighbouring floats stay distinct
     try:
-        df = pd.read_csv(data_file, header=None, low_memory=False)
+        df = pd.read_csv(
+            data_file, header=None, low_memory=False, float_precision="round_trip"
+        )
     except (EmptyDataError, ParserError, UnicodeDecodeError) as e:
         raise DataParsingError(f"Data could not be parsed: {e}") from e
 
-- 
2.43.0


From 971eb49e9c0297cdc643638656f09511f8065239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 36/37] fix: faces which do not fit a cell are shown as 1 and 0

---
 src/coinflip/_randtests/common/pprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/common/pprint.py b/src/coinflip/_randtests/common/pprint.py
index 3c0b191..590468c 100644
--- a/src/coinflip/_randtests/common/pprint.py
+++ b/src/coinflip/_randtests/common/pprint.py
@@ -1,6 +1,7 @@
 from typing import Iterable
 from typing import Tuple
 
+from rich.cells import cell_len
 from rich.style import Style
 from rich.table import Table
 from rich.text import Text
@@ -39,7 +40,8 @@ def determine_rep(heads, tails) -> Tuple[str, str]:
     """
     heads_rep = str(heads)[:1]
     tails_rep = str(tails)[:1]
-    if heads_rep == tails_rep or not (heads_rep and tails_rep):
+    fits = all(cell_len(c) == 1 and c.isprintable() for c in (heads_rep, tails_rep))
+    if heads_rep == tails_rep or not fits:
         heads_rep = "1"
         tails_rep = "0"
 
-- 
2.43.0


From 5eb1f4f31e04033e5916a9d175a49f5f6b64337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:34 +0000
Subject: [PATCH 37/37] fix: serial and approximate entropy take blocksizes of
 65 and more

The degrees of freedom, as a whole number, exceeded what scipy's
gammaincc takes (TypeError).
---
 src/coinflip/_randtests/entropy.py | 2 +-
 src/coinflip/_randtests/serial.py  | 4 ++--
 src/coinflip/randtests_refimpl.py  | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index 0f80eaa..0b8cf6f 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -66,7 +66,7 @@ def approximate_entropy(series, heads, tails, ctx, blocksize=None):
     approx_entropy = phis[blocksize] - phis[blocksize + 1]
     # rounding errors can put chi2 below 0, where gammaincc is undefined
     chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)
-    p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
+    p = gammaincc(2.0 ** (blocksize - 1), chi2 / 2)
 
     advance_task(ctx)
 
diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 7dfe022..ccb57e7 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -68,7 +68,7 @@ def serial(series, heads, tails, ctx, blocksize=None):
     normsum_delta1 = max(
         normalised_sums[blocksize] - normalised_sums[blocksize - 1], 0.0
     )
-    p1 = gammaincc(2 ** (blocksize - 2), normsum_delta1 / 2)
+    p1 = gammaincc(2.0 ** (blocksize - 2), normsum_delta1 / 2)
 
     normsum_delta2 = max(
         normalised_sums[blocksize]
@@ -76,7 +76,7 @@ def serial(series, heads, tails, ctx, blocksize=None):
         + normalised_sums[blocksize - 2],
         0.0,
     )
-    p2 = gammaincc(2 ** (blocksize - 3), normsum_delta2 / 2)
+    p2 = gammaincc(2.0 ** (blocksize - 3), normsum_delta2 / 2)
 
     advance_task(ctx)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index dc0051f..096049c 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -341,8 +341,8 @@ def serial(sequence: List[Literal[0, 1]], blocksize: int):
     ]
 
     pvalues = [
-        gammaincc(2 ** (blocksize - 2), normsum_deltas[0] / 2),
-        gammaincc(2 ** (blocksize - 3), normsum_deltas[1] / 2),
+        gammaincc(2.0 ** (blocksize - 2), normsum_deltas[0] / 2),
+        gammaincc(2.0 ** (blocksize - 3), normsum_deltas[1] / 2),
     ]
 
     return normsum_deltas, pvalues
@@ -394,7 +394,7 @@ def approximate_entropy(sequence: List[Literal[0, 1]], blocksize: int):
 
     approx_entropy = phis[0] - phis[1]
     chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)
-    p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
+    p = gammaincc(2.0 ** (blocksize - 1), chi2 / 2)
 
     return chi2, p
 
-- 
2.43.0

