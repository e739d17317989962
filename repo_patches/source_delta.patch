From 01016a055689eab6e0b30913b9e1c121ca783c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 01/37] fix: expected_transitions must sum the evolved
 distributions of all the steps

---
 pydtmc/measures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index a346288..1a06a83 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -176,11 +176,11 @@ def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribu
     if steps <= p.shape[0]:
 
         idist = initial_distribution
-        idist_sum = initial_distribution
+        idist_sum = _np.copy(initial_distribution)
 
         for _ in range(steps - 1):
-            pi = _np.dot(idist, p)
-            idist_sum += pi
+            idist = _np.dot(idist, p)
+            idist_sum += idist
 
         et = idist_sum[:, _np.newaxis] * p
 
-- 
2.43.0


From 7d1e5b52371b52c2047616586b2570e3a8a85253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 02/37] fix: time_correlations must not depend on the
 eigendecomposition for long horizons

---
 pydtmc/markov_chain.py |  2 +-
 pydtmc/measures.py     | 58 +++++++++++++++---------------------------
 2 files changed, 21 insertions(+), 39 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ac6bc6f..13ed0f8 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1867,7 +1867,7 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = _time_correlations(self, self.__rdl_decomposition, sequence1, sequence2, time_points)
+        value = _time_correlations(self, sequence1, sequence2, time_points)
 
         return value
 
diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 1a06a83..1771d66 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -517,7 +517,7 @@ def mc_sensitivity(mc: _tmc, state: int) -> _oarray:
     return s
 
 
-def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
+def mc_time_correlations(mc: _tmc, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
 
     p, size, pi = mc.p, mc.size, mc.pi
 
@@ -550,58 +550,40 @@ def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2:
 
     tcs = []
 
-    if time_points[-1] > size:
-
-        r, d, l = rdl  # noqa: E741
+    start_values = (None, None)
 
-        for i in range(time_points_length):
+    m = _np.multiply(observations1, pi)
 
-            t = _np.zeros(d.shape, dtype=float)
-            t[_np.diag_indices_from(d)] = _np.diag(d)**time_points[i]
+    for i in range(time_points_length):
 
-            p_times = _np.dot(_np.dot(r, t), l)
+        time_point = time_points[i]
 
-            m1 = _np.multiply(observations1, pi)
-            m2 = _np.dot(p_times, observations2)
+        if start_values[0] is not None:
 
-            tcs.append(_np.dot(m1, m2).item())  # pylint: disable=no-member
+            pk_i = start_values[1]
+            time_prev = start_values[0]
+            t_diff = time_point - time_prev
 
-    else:
+            for _ in range(t_diff):
+                pk_i = _np.dot(p, pk_i)
 
-        start_values = (None, None)
-
-        m = _np.multiply(observations1, pi)
-
-        for i in range(time_points_length):
+        else:
 
-            time_point = time_points[i]
+            if time_point >= 2:
 
-            if start_values[0] is not None:
+                pk_i = _np.dot(p, _np.dot(p, observations2))
 
-                pk_i = start_values[1]
-                time_prev = start_values[0]
-                t_diff = time_point - time_prev
-
-                for _ in range(t_diff):
+                for _ in range(time_point - 2):
                     pk_i = _np.dot(p, pk_i)
 
+            elif time_point == 1:
+                pk_i = _np.dot(p, observations2)
             else:
+                pk_i = observations2
 
-                if time_point >= 2:
-
-                    pk_i = _np.dot(p, _np.dot(p, observations2))
-
-                    for _ in range(time_point - 2):
-                        pk_i = _np.dot(p, pk_i)
-
-                elif time_point == 1:
-                    pk_i = _np.dot(p, observations2)
-                else:
-                    pk_i = observations2
-
-            start_values = (time_point, pk_i)
+        start_values = (time_point, pk_i)
 
-            tcs.append(_np.dot(m, pk_i).item())  # pylint: disable=no-member
+        tcs.append(_np.dot(m, pk_i).item())  # pylint: disable=no-member
 
     if time_points_integer:
         return tcs[0]
-- 
2.43.0


From f5f8913b74e5b26dfa92e958d1cf1c77c15e7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 03/37] fix: periods must follow the order of the communicating
 classes whatever the labels

---
 pydtmc/computations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index c2421ba..f2f288f 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -100,7 +100,9 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
 
     sccs = list(_nx.strongly_connected_components(graph))
 
-    classes = [sorted(scc) for scc in sccs]
+    positions = {node: position for position, node in enumerate(graph.nodes)}
+
+    classes = [sorted(map(positions.__getitem__, scc)) for scc in sccs]
     indices = sorted(classes, key=lambda x: (-len(x), x[0]))
 
     periods = [0] * len(indices)
@@ -113,7 +115,7 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
             spl = _nx.shortest_path_length(graph, c).keys()
             scc_reachable = scc_reachable.union(spl)
 
-        index = indices.index(sorted(scc))
+        index = indices.index(sorted(map(positions.__getitem__, scc)))
 
         if (scc_reachable - scc) == set():
             periods[index] = _calculate_period(graph.subgraph(scc))
-- 
2.43.0


From 7eaad0e79db63568e84651210cd7cfb67e6a4ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 04/37] fix: is_aperiodic must look at the recurrent classes of
 a reducible chain

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 13ed0f8..b50e88c 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -642,7 +642,7 @@ class MarkovChain(_Model):
         elif all(period == 1 for period in self.periods):
             result = True
         else:  # pragma: no cover
-            result = _nx.is_aperiodic(self.__digraph)
+            result = _np.gcd.reduce([self.periods[self.communicating_classes.index(recurrent_class)] for recurrent_class in self.recurrent_classes]).item() == 1
 
         return result
 
-- 
2.43.0


From 30e2e499ad7352be3449df361eaa880b8155098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 05/37] fix: the exponent used by is_regular must be n^2 - 2n +
 2

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index b50e88c..22be778 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -709,7 +709,7 @@ class MarkovChain(_Model):
         if nz > 0:
             k = (2 * self.__size) - nz - 1
         else:
-            k = self.__size**self.__size - (2 * self.__size) + 2
+            k = self.__size**2 - (2 * self.__size) + 2
 
         result = _np.all(_npl.matrix_power(self.__p, k) > 0.0)
 
-- 
2.43.0


From ed70f3e183f249c0aa397dcbfa88945d3a9324ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 06/37] fix: lumpability must be checked up to numerical
 tolerance

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index a250d8b..3a86e18 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -873,7 +873,7 @@ def mc_lump(p: _tarray, states: _tlist_str, partitions: _tlists_int) -> _tmc_gen
 
     left = _np.dot(_np.dot(_np.dot(r, k), p), r)
     right = _np.dot(p, r)
-    is_lumpable = _np.array_equal(left, right)
+    is_lumpable = _np.allclose(left, right)
 
     if not is_lumpable:  # pragma: no cover
         return None, None, 'The Markov chain is not lumpable with respect to the given partitions.'
-- 
2.43.0


From bad047d8bf9c71a976759d1fd2f5d903c14480ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 07/37] fix: stochastic monotonicity must be checked up to
 numerical tolerance

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 22be778..d37540d 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -752,7 +752,7 @@ class MarkovChain(_Model):
                 sk = sm[k]
                 sl = sm[l]
 
-                if sl < sk:
+                if sl < sk and not _np.isclose(sl, sk):
                     result = False
                     break
 
-- 
2.43.0


From 4a4148950a0f6b87f0e532325e66b64abf05b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 08/37] fix: restrict must drop symbols whenever fewer than all
 of them are kept

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 3a86e18..fc84d50 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -171,7 +171,7 @@ def hmm_restrict(p: _tarray, e: _tarray, states: _tlist_str, symbols: _tlist_str
     p, e = _np.copy(p), _np.copy(e)
 
     p_decrease = len(sub_states) < p.shape[0]
-    e_decrease = p_decrease or len(sub_symbols) < e.shape[0]
+    e_decrease = p_decrease or len(sub_symbols) < e.shape[1]
 
     if p_decrease:
         p = p[_np.ix_(sub_states, sub_states)]
-- 
2.43.0


From 757a314f4ace9c70b127984f06b3df04f3543e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 09/37] fix: hmm simulate must not take null transitions or
 emit null symbols on a zero draw

---
 pydtmc/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/simulations.py b/pydtmc/simulations.py
index 934d0fe..50ebd77 100644
--- a/pydtmc/simulations.py
+++ b/pydtmc/simulations.py
@@ -130,7 +130,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
         state = 0
 
         for j in range(n - 2, -1, -1):
-            if pr_i > pc[current_state, j]:
+            if pr_i >= pc[current_state, j]:
                 state = j + 1
                 break
 
@@ -138,7 +138,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
         symbol = 0
 
         for j in range(k - 2, -1, -1):
-            if er_i > ec[state, j]:
+            if er_i >= ec[state, j]:
                 symbol = j + 1
                 break
 
-- 
2.43.0


From 555ca69469d9b4888e490b7cbf9c7b4c3cf8b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 10/37] fix: the newton-cotes nodes must start from the lower
 bound of the interval

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index e4c8357..c3dddc3 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -259,7 +259,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
 
         bandwidth = (b - a) / size
 
-        nodes = (_np.arange(size) + 0.5) * bandwidth
+        nodes = a + ((_np.arange(size) + 0.5) * bandwidth)
         weights = _np.repeat(bandwidth, size)
 
     p = _np.zeros((size, size), dtype=float)
-- 
2.43.0


From 9aeb638ca3635d680d625f655a37e594643914eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 11/37] fix: cached properties must not expose the cached
 objects

---
 pydtmc/decorators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydtmc/decorators.py b/pydtmc/decorators.py
index 9749b3f..390e7fc 100644
--- a/pydtmc/decorators.py
+++ b/pydtmc/decorators.py
@@ -13,6 +13,7 @@ __all__ = [
 
 # Standard
 
+import copy as _cp
 import functools as _ft
 import re as _re
 import threading as _th
@@ -59,9 +60,11 @@ class cached_property(property):
 
         with self._lock:
             try:
-                return instance.__dict__[self._func_name]
+                value = instance.__dict__[self._func_name]
             except KeyError:
-                return instance.__dict__.setdefault(self._func_name, self._func(instance))
+                value = instance.__dict__.setdefault(self._func_name, self._func(instance))
+
+            return _cp.deepcopy(value)
 
     def __set__(self, instance, value):
 
-- 
2.43.0


From 92d121c725a3f588221cd0c788b54b42cac41eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 12/37] fix: models must not share mutable labels, rows and
 sequences with the caller

---
 pydtmc/hidden_markov_model.py |  4 ++--
 pydtmc/markov_chain.py        | 12 ++++++------
 pydtmc/validation.py          |  4 ++++
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 118e388..4b685a4 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -277,7 +277,7 @@ class HiddenMarkovModel(_Model):
         A property representing the states of the hidden Markov model.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @property
     def symbols(self) -> _tlist_str:
@@ -286,7 +286,7 @@ class HiddenMarkovModel(_Model):
         A property representing the symbols of the hidden Markov model.
         """
 
-        return self.__symbols
+        return self.__symbols.copy()
 
     def decode(self, symbols: _tsequence, initial_status: _ostatus = None, use_scaling: bool = True) -> _ohmm_decoding:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index d37540d..c8d78c2 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -965,7 +965,7 @@ class MarkovChain(_Model):
         A property representing the states of the Markov chain.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @_cached_property
     def topological_entropy(self) -> float:
@@ -1014,7 +1014,7 @@ class MarkovChain(_Model):
         if 'ap' not in self.__cache:
             self.__cache['ap'] = _absorption_probabilities(self)
 
-        return self.__cache['ap']
+        return _cp.copy(self.__cache['ap'])
 
     @_object_mark(instance_generator=True)
     def aggregate(self, s: int, method: str = 'adaptive') -> _tmc:
@@ -1192,7 +1192,7 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = self.__p[state, :]
+        value = _np.copy(self.__p[state, :])
 
         return value
 
@@ -1525,7 +1525,7 @@ class MarkovChain(_Model):
         if 'mat' not in self.__cache:
             self.__cache['mat'] = _mean_absorption_times(self)
 
-        return self.__cache['mat']
+        return _cp.copy(self.__cache['mat'])
 
     @_object_mark(aliases=['mfpt_between', 'mfptb'])
     def mean_first_passage_times_between(self, origins: _tstates, targets: _tstates) -> _ofloat:
@@ -1596,7 +1596,7 @@ class MarkovChain(_Model):
         if 'mnv' not in self.__cache:
             self.__cache['mnv'] = _mean_number_visits(self)
 
-        return self.__cache['mnv']
+        return _cp.copy(self.__cache['mnv'])
 
     @_object_mark(aliases=['mrt'])
     def mean_recurrence_times(self) -> _oarray:
@@ -1613,7 +1613,7 @@ class MarkovChain(_Model):
         if 'mrt' not in self.__cache:
             self.__cache['mrt'] = _mean_recurrence_times(self)
 
-        return self.__cache['mrt']
+        return _cp.copy(self.__cache['mrt'])
 
     @_object_mark(instance_generator=True)
     def merge_with(self, other: _tmc, gamma: float) -> _tmc:
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index ceb195d..482bc59 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -610,6 +610,8 @@ def validate_labels_input(value: _tany, size: _oint = None) -> _tlist_str:
     if size is not None and labels_length != size:
         raise ValueError(f'The "@arg@" parameter must contain a number of elements equal to {size:d}.')
 
+    value = value.copy()
+
     return value
 
 
@@ -909,6 +911,8 @@ def validate_sequences(value: _tany, labels: _tlist_str, flex: bool) -> _tlists_
 
     if value_type in ['integer', 'string']:
         value = [value]
+    else:
+        value = value.copy()
 
     for index, value_current in enumerate(value):
         try:
-- 
2.43.0


From e4dcd0ae1d798d4a2097729fedb0ad44194c8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 13/37] fix: equal models must have equal hashes whatever the
 sign of their zeros

---
 pydtmc/hidden_markov_model.py | 2 +-
 pydtmc/markov_chain.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 4b685a4..b28b945 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -180,7 +180,7 @@ class HiddenMarkovModel(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), self.e.tobytes(), tuple(self.states), tuple(self.symbols)))
+        return hash(((self.p + 0.0).tobytes(), (self.e + 0.0).tobytes(), tuple(self.states), tuple(self.symbols)))
 
     def __repr__(self) -> str:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index c8d78c2..3211192 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -239,7 +239,7 @@ class MarkovChain(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), tuple(self.states)))
+        return hash(((self.p + 0.0).tobytes(), tuple(self.states)))
 
     def __repr__(self) -> str:
 
-- 
2.43.0


From d51bc47637d60edce853402524cc59947f7812d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 14/37] fix: only the generators of the package may skip the
 validation of a model

---
 pydtmc/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 3028080..005b55e 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -226,7 +226,7 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
 
 def get_caller(stack: _tstack) -> str:
 
-    caller = stack[1][3]
+    caller = stack[1][3] if stack[1][1] == stack[0][1] else ''
 
     return caller
 
-- 
2.43.0


From 9026fbdf4d4d2132dda886d32193d98570f92585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 15/37] fix: complex values must be rejected instead of losing
 their imaginary part

---
 pydtmc/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 005b55e..fcb7a1d 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -218,6 +218,9 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
     if output is None or not _np.issubdtype(output.dtype, _np.number):
         raise TypeError('The data type is not supported.')
 
+    if dtype is float and _np.iscomplexobj(output) and _np.any(_np.imag(output) != 0.0):
+        raise TypeError('The data type is not supported.')
+
     if dtype is not None:
         output = output.astype(dtype)
 
-- 
2.43.0


From 739c0c2e20e3f74382cd28c501d1b6e2fd13f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 16/37] fix: simulations must accept rows that sum to 1 up to
 the validation tolerance

---
 pydtmc/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/simulations.py b/pydtmc/simulations.py
index 50ebd77..2c8bb54 100644
--- a/pydtmc/simulations.py
+++ b/pydtmc/simulations.py
@@ -114,7 +114,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
 
     current_state = initial_state
     states = [initial_state]
-    symbols = [rng.choice(k, size=1, p=hmm.e[current_state, :]).item()]
+    symbols = [rng.choice(k, size=1, p=hmm.e[current_state, :] / _np.sum(hmm.e[current_state, :])).item()]
 
     pr = rng.random(steps)
     pc = _np.cumsum(hmm.p, axis=1)
@@ -222,7 +222,7 @@ def mc_simulate(mc: _tmc, steps: int, initial_state: int, final_state: _oint, rn
     for _ in range(steps):
 
         w = p[current_state, :]
-        current_state = rng.choice(size, size=1, p=w).item()
+        current_state = rng.choice(size, size=1, p=w / _np.sum(w)).item()
         value.append(current_state)
 
         if check_final_state and current_state == final_state:
-- 
2.43.0


From e19ca6d2e00ce15b257fbac4dfe7c07ef02940c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 17/37] fix: random generators must reject masks with fully
 assigned rows that do not sum to 1

---
 pydtmc/generators.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index fc84d50..74c7f2a 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -149,11 +149,17 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
 
     p_full_rows, p_mask_unassigned, p_zeros_required, p_result = process_zeros(n, p_zeros, p_mask)
 
+    if _np.any(~p_full_rows & ~_np.any(p_mask_unassigned, axis=1)):  # pragma: no cover
+        return None, None, None, None, 'The mask of transition probabilities contains fully assigned rows that do not sum to 1.'
+
     if p_result:  # pragma: no cover
         return None, None, None, None, f'The number of null transition probabilities exceeds the maximum threshold of {p_zeros_required:d}.'
 
     e_full_rows, e_mask_unassigned, e_zeros_required, e_result = process_zeros(k, e_zeros, e_mask)
 
+    if _np.any(~e_full_rows & ~_np.any(e_mask_unassigned, axis=1)):  # pragma: no cover
+        return None, None, None, None, 'The mask of emission probabilities contains fully assigned rows that do not sum to 1.'
+
     if e_result:  # pragma: no cover
         return None, None, None, None, f'The number of null emission probabilities exceeds the maximum threshold of {e_zeros_required:d}.'
 
@@ -944,6 +950,9 @@ def mc_random(rng: _trand, size: int, zeros: int, mask: _tarray) -> _tmc_generat
     if zeros > zeros_required:  # pragma: no cover
         return None, None, f'The number of zero-valued transition probabilities exceeds the maximum threshold of {zeros_required:d}.'
 
+    if _np.any(~full_rows & ~_np.any(mask_unassigned, axis=1)):  # pragma: no cover
+        return None, None, 'The mask contains fully assigned rows that do not sum to 1.'
+
     n = _np.arange(size)
 
     for i in n:
-- 
2.43.0


From 831b56add5b8c96dffedb7a46899e185440e1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 18/37] fix: random generators must return stochastic rows when
 all the draws of a row are null

---
 pydtmc/generators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 74c7f2a..c34f5bc 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -124,10 +124,12 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
 
             assigned_columns = _np.isnan(pm_mask_internal[i, :])
             s = _np.sum(m[i, assigned_columns])
+            si = _np.sum(m[i, ~assigned_columns])
 
             if s > 0.0:
-                si = _np.sum(m[i, ~assigned_columns])
                 m[i, assigned_columns] *= (1.0 - si) / s
+            elif _np.any(assigned_columns):
+                m[i, assigned_columns] = (1.0 - si) / _np.sum(assigned_columns)
 
         return m
 
@@ -980,10 +982,12 @@ def mc_random(rng: _trand, size: int, zeros: int, mask: _tarray) -> _tmc_generat
 
         assigned_columns = _np.isnan(mask[i, :])
         s = _np.sum(p[i, assigned_columns])
+        si = _np.sum(p[i, ~assigned_columns])
 
         if s > 0.0:
-            si = _np.sum(p[i, ~assigned_columns])
             p[i, assigned_columns] = p[i, assigned_columns] * ((1.0 - si) / s)
+        elif _np.any(assigned_columns):
+            p[i, assigned_columns] = (1.0 - si) / _np.sum(assigned_columns)
 
     state_names = [f'{i:d}' for i in range(1, size + 1)]
 
-- 
2.43.0


From b4c76f05504053862d782b80ef6d94ed80f79f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 19/37] fix: the Moran model must reject selection intensities
 that lead to negative fitness

---
 pydtmc/markov_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 3211192..f246016 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2633,6 +2633,9 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
+        if model == 'moran' and s > 1.0:  # pragma: no cover
+            raise _ValidationError('The selection intensity of the Moran model must be less than or equal to 1.')
+
         if model == 'wright-fisher' and (4.0 * n * max(u, v)) > 1.0:
             raise _ValidationError('The highest mutation rate specified is too high for the Wright-Fisher model.')
 
-- 
2.43.0


From 4f18a9a754783dd2bcb19109bae9314a1b99a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 20/37] fix: files that do not define all the probabilities of
 a model, or define invalid ones, must be rejected

---
 pydtmc/hidden_markov_model.py | 9 +++++++++
 pydtmc/markov_chain.py        | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index b28b945..d3e8523 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -787,6 +787,15 @@ class HiddenMarkovModel(_Model):
             else:
                 p[states.index(element_from), states.index(element_to)] = probability
 
+        if len(d) != n * (n + k):  # pragma: no cover
+            raise ValueError('The file must contain all the possible combinations of states and symbols.')
+
+        if not _np.all((p >= 0.0) & (p <= 1.0)):  # pragma: no cover
+            raise ValueError('The transition matrix defined by the file must contain only values between 0.0 and 1.0.')
+
+        if not _np.all((e >= 0.0) & (e <= 1.0)):  # pragma: no cover
+            raise ValueError('The emission matrix defined by the file must contain only values between 0.0 and 1.0.')
+
         if not _np.allclose(_np.sum(p, axis=1), _np.ones(n, dtype=float)):  # pragma: no cover
             raise ValueError('The rows of the transition matrix defined by the dictionary must sum to 1.0.')
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index f246016..09a1511 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2453,6 +2453,12 @@ class MarkovChain(_Model):
         for (state_from, state_to), probability in d.items():
             p[states.index(state_from), states.index(state_to)] = probability
 
+        if len(d) != size**2:  # pragma: no cover
+            raise ValueError('The file must contain all the possible combinations of states.')
+
+        if not _np.all((p >= 0.0) & (p <= 1.0)):  # pragma: no cover
+            raise ValueError('The transition matrix defined by the file must contain only values between 0.0 and 1.0.')
+
         if not _np.allclose(_np.sum(p, axis=1), _np.ones(size, dtype=float)):  # pragma: no cover
             raise ValueError('The rows of the transition matrix defined by the file must sum to 1.0.')
 
-- 
2.43.0


From cb1584c7e334ea030a7b53aaae0cb45d4d03b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 21/37] fix: reading a file must not strip the labels of the
 model

---
 pydtmc/files_io.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index df5e128..e152d78 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -81,7 +81,6 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
                     if not isinstance(label, str) or len(label) < 3:  # pragma: no cover
                         raise ValueError('The file header is invalid.')
 
-                    label = label.strip()
                     label_prefix = label[:2]
 
                     if label_prefix == 'E_':
@@ -306,9 +305,9 @@ def read_xml(mc: bool, file_path: _tpath) -> _tobj_dict:
         if sorted(attributes_keys) != valid_params_keys:  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
-        attributes_values = [attribute[1].strip() for attribute in attributes]
+        attributes_values = [attribute[1] for attribute in attributes]
 
-        if any(len(attributes_value) == 0 for attributes_value in attributes_values):  # pragma: no cover
+        if any(len(attributes_value.strip()) == 0 for attributes_value in attributes_values):  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
         values = []
-- 
2.43.0


From d6ed1e8be29eae21e64b79fb70523517c2c706af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 22/37] fix: fit_function must reject transition functions with
 negative values

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index c3dddc3..d66ca85 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -275,7 +275,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
             except Exception:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
-            if not _np.isfinite(f_result) or not _np.isreal(f_result):  # pragma: no cover
+            if not _np.isfinite(f_result) or not _np.isreal(f_result) or f_result < 0.0:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
             p[i, j] = f_result * weights[j]
-- 
2.43.0


From 06c8d45e7e388f11d0627899c769f97ac8ba15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 23/37] fix: assess_markov_property must not confuse pairs and
 triples of states whose joined labels coincide

---
 pydtmc/assessments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index ae3b6aa..91ef4e3 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -271,8 +271,8 @@ def assess_markov_property(possible_states: _tlist_str, sequence: _tsequence, si
         fnp = _fnp_iteration(i, sts3, sts2, s02, p)
         chi2 += ((so3[i] - fnp)**2.0) / fnp
 
-    doubles = [f'{sequence_labels[i]}{sequence_labels[i + 1]}' for i in range(sequence_length - 1)]
-    triples = [f'{sequence_labels[i]}{sequence_labels[i + 1]}{sequence_labels[i + 2]}' for i in range(sequence_length - 2)]
+    doubles = [(sequence_labels[i], sequence_labels[i + 1]) for i in range(sequence_length - 1)]
+    triples = [(sequence_labels[i], sequence_labels[i + 1], sequence_labels[i + 2]) for i in range(sequence_length - 2)]
     dof = len(set(triples)) - len(set(doubles)) + len(set(sequence_labels)) - 1
 
     p_value = 0.0 if dof == 0 else 1.0 - _sps.chi2.cdf(chi2, dof)
-- 
2.43.0


From 8172e4f836d6d95650bdafd2f572717894114ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 24/37] fix: the Tauchen-Hussey approximation must not return a
 chain with undefined probabilities

---
 pydtmc/generators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index c34f5bc..f5da6a3 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -528,6 +528,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
         p /= _np.sum(p, axis=1, keepdims=True)
 
+        if not _np.all(_np.isfinite(p)):
+            return None, None, 'The gaussian quadrature failed to produce a valid transition matrix.'
+
     else:
 
         size_m1 = size - 1
-- 
2.43.0


From dfc3f554feccaab1793b62302e888c6c7b9d5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 25/37] fix: a state is absorbing only if it can never be left,
 however small the probability of leaving it

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 09a1511..4efcdbc 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -272,7 +272,7 @@ class MarkovChain(_Model):
     @_cached_property
     def __absorbing_states_indices(self) -> _tlist_int:
 
-        indices = [index for index in range(self.__size) if _np.isclose(self.__p[index, index], 1.0)]
+        indices = [index for index in range(self.__size) if _np.array_equal(_np.flatnonzero(self.__p[index, :]), [index])]
 
         return indices
 
-- 
2.43.0


From 48afcdfb47b820b048da637bdf5d76650bef4f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 26/37] fix: the mean number of visits depends on reachability
 and closedness, not on probabilities being close to 0 or 1

---
 pydtmc/measures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 1771d66..3048ef3 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -382,6 +382,9 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
     p, size, states, cm = mc.p, mc.size, mc.states, mc.communication_matrix
 
+    # the states that can be reached in at least one step
+    rm = _np.dot(mc.adjacency_matrix, mc.accessibility_matrix) > 0
+
     ccis = [[*map(states.index, communicating_class)] for communicating_class in mc.communicating_classes]
     closed_states = [True] * size
 
@@ -435,7 +438,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
     for j in range(size):
 
-        ct1 = _np.isclose(hp[j, j], 1.0)
+        ct1 = closed_states[j]
 
         if ct1:
             z = _np.nan
@@ -444,7 +447,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
         for i in range(size):
 
-            if _np.isclose(hp[i, j], 0.0):
+            if not rm[i, j]:
                 mnv[i, j] = 0.0
             elif ct1:
                 mnv[i, j] = _np.inf
-- 
2.43.0


From 6ac9e19414112581f376fdb7676fb8cc6666cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 27/37] fix: the mean recurrence time of a rarely visited state
 is not zero

---
 pydtmc/measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 3048ef3..4e7c47f 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -464,7 +464,7 @@ def mc_mean_recurrence_times(mc: _tmc) -> _oarray:
 
     pi = mc.pi[0]
 
-    mrt = _np.array([0.0 if _np.isclose(v, 0.0) else 1.0 / v for v in pi])
+    mrt = _np.array([0.0 if v <= 0.0 else 1.0 / v for v in pi])
 
     return mrt
 
-- 
2.43.0


From b3d6e02377bf0a27736d74f4025abac1c1198100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 28/37] fix: the second largest eigenvalue modulus may be
 arbitrarily close to 1

---
 pydtmc/computations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index f2f288f..7a2374b 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -342,7 +342,7 @@ def rdl_decomposition(p: _tarray) -> _trdl:
 def slem(m: _tarray) -> _ofloat:
 
     ev = eigenvalues_sorted(m)
-    value = ev[~_np.isclose(ev, 1.0)][-1]
+    value = ev[-2]
 
     if _np.isclose(value, 0.0):
         return None
-- 
2.43.0


From a55eb6a71328dd046cb8e98162ccafb12c26ed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 29/37] fix: the accessibility matrix overflows integers for
 chains with many states

---
 pydtmc/markov_chain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 4efcdbc..fd4fa02 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -394,8 +394,9 @@ class MarkovChain(_Model):
         a = self.adjacency_matrix
         i = _np.eye(self.__size, dtype=int)
 
-        am = _npl.matrix_power(i + a, self.__size - 1)
-        am = (am > 0).astype(int)
+        # the power is computed on booleans, as the number of paths may exceed the integer range
+        am = _npl.matrix_power((i + a) > 0, self.__size - 1)
+        am = am.astype(int)
 
         return am
 
-- 
2.43.0


From 18bd44cf7dafbb6836be0b8cc11bbe88ca58493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 30/37] fix: is_regular must not depend on the underflow of
 path probabilities

---
 pydtmc/markov_chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index fd4fa02..25da846 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -712,7 +712,8 @@ class MarkovChain(_Model):
         else:
             k = self.__size**2 - (2 * self.__size) + 2
 
-        result = _np.all(_npl.matrix_power(self.__p, k) > 0.0)
+        # the power is computed on booleans, as the probabilities of the paths may underflow
+        result = _np.all(_npl.matrix_power(self.__p > 0.0, k))
 
         return result
 
-- 
2.43.0


From 5a8c44405fe56d242ca701ef3eab38b4cfcb1d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 31/37] fix: spectral top-down aggregation must not drop the
 states between the merged ones

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index f5da6a3..aba4b8e 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -308,7 +308,7 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         vi = _np.ravel(_np.argwhere(cq_phi[:, cq_index] == 1.0))
         vi0, vi1 = vi[0], vi[1]
-        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):(vi1 - 1)], cq_eta[:, (vi1 + 1):]))
+        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):vi1], cq_eta[:, (vi1 + 1):]))
 
         z = phi_i.shape[1]
 
-- 
2.43.0


From c92acbbb480803ea4529411c116da29816506544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 32/37] fix: spectral aggregation must always split the states
 into two groups

---
 pydtmc/generators.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index aba4b8e..d7a239b 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -59,6 +59,25 @@ from .custom_types import (
 # FUNCTIONS #
 #############
 
+def _spectral_bipartition(ar: _tarray) -> _tarray:
+
+    evalues, evectors = _npl.eig(ar)
+    indices = _np.roll(_np.argsort(_np.abs(evalues))[::-1], -1)
+
+    # Eigenvectors whose entries have the same sign do not separate the states.
+    for index in indices:
+
+        group = _np.real(evectors[:, index]) >= 0.0
+
+        if _np.any(group) and not _np.all(group):
+            return group
+
+    evector = _np.real(evectors[:, indices[-1]])
+    group = evector > _np.amin(evector)
+
+    return group
+
+
 # noinspection DuplicatedCode
 def hmm_estimate(n: int, k: int, sequence_states: _tlist_int, sequence_symbols: _tlist_int, handle_nulls: bool) -> _thmm_params:
 
@@ -232,19 +251,15 @@ def mc_aggregate_spectral_bottom_up(p: _tarray, pi: _tarray, s: int) -> _tmc_gen
 
         ar = 0.5 * (p_sub + _np.dot(_npl.solve(pi_sub, _np.transpose(p_sub)), pi_sub))
 
-        evalues, evectors = _npl.eig(ar)
-        index = _np.argsort(_np.abs(evalues))[-2]
-
-        evector = evectors[:, index]
-        evector = _np.transpose(evector[_np.newaxis, :])
+        group = _np.transpose(_spectral_bipartition(ar)[_np.newaxis, :])
 
         vt = _np.transpose(v[_np.newaxis, :])
 
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = group
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
+        v2[indices] = ~group
 
         bc_stack = _np.hstack((cbc_phi[:, :cbc_index], v1, v2, cbc_phi[:, (cbc_index + 1):]))
 
@@ -337,19 +352,15 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         ar = 0.5 * (p_sub + _np.dot(_npl.solve(pi_sub, _np.transpose(p_sub)), pi_sub))
 
-        evalues, evectors = _npl.eig(ar)
-        index = _np.argsort(_np.abs(evalues))[-2]
-
-        evector = evectors[:, index]
-        evector = _np.transpose(evector[_np.newaxis, :])
+        group = _np.transpose(_spectral_bipartition(ar)[_np.newaxis, :])
 
         vt = _np.transpose(v[_np.newaxis, :])
 
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = group
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
+        v2[indices] = ~group
 
         cbc_phi = cbc_phi[:, :-1]
 
-- 
2.43.0


From 77cf4b80845b865a188551ed123a2e0eae3ae756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 33/37] fix: hitting probabilities and times of states left
 with small probabilities

The least-squares solver stopped early on ill-scaled systems: a target that is
reached almost surely could be reported with probability 0 and an infinite time
when a transition probability is 1e-7 or less.
---
 pydtmc/measures.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 4e7c47f..6a3a84e 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -30,7 +30,6 @@ __all__ = [
 
 import numpy as _np
 import numpy.linalg as _npl
-import scipy.optimize as _spo
 
 # Internal
 
@@ -277,10 +276,22 @@ def mc_hitting_probabilities(mc: _tmc, targets: _tlist_int) -> _tarray:
     hp = _np.ones(size, dtype=float)
 
     if non_target.size > 0:
-        a = p[non_target, :][:, non_target] - _np.eye(non_target.size)
-        b = _np.sum(-p[non_target, :][:, target], axis=1)
-        x = _spo.nnls(a, b)[0]
-        hp[non_target] = x
+
+        reaching = _np.isin(_np.arange(size, dtype=int), target)
+        current_size, new_size = 0, _np.count_nonzero(reaching)
+
+        while current_size != new_size:
+            reaching = reaching | _np.any(p[:, reaching] > 0.0, axis=1)
+            current_size, new_size = new_size, _np.count_nonzero(reaching)
+
+        hp[~reaching] = 0.0
+
+        solve = _np.setdiff1d(_np.flatnonzero(reaching), target)
+
+        if solve.size > 0:
+            a = _np.eye(solve.size) - p[solve, :][:, solve]
+            b = _np.sum(p[solve, :][:, target], axis=1)
+            hp[solve] = _np.clip(_npl.solve(a, b), 0.0, 1.0)
 
     return hp
 
@@ -309,10 +320,9 @@ def mc_hitting_times(mc: _tmc, targets: _tlist_int) -> _tarray:
     solve = _np.setdiff1d(list(range(size)), _np.union1d(target, infinity))
 
     if solve.size > 0:
-        a = p[solve, :][:, solve] - _np.eye(solve.size)
-        b = -_np.ones(solve.size, dtype=float)
-        x = _spo.nnls(a, b)[0]
-        ht[solve] = x
+        a = _np.eye(solve.size) - p[solve, :][:, solve]
+        b = _np.ones(solve.size, dtype=float)
+        ht[solve] = _npl.solve(a, b)
 
     return ht
 
-- 
2.43.0


From 14ea15c7fc4d8b79fd4036b0a3e1fcdb0991c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:18 +0000
Subject: [PATCH 34/37] fix: fitting rejects an emission guess whose columns do
 not match the symbols

---
 pydtmc/hidden_markov_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index d3e8523..625c165 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -645,6 +645,9 @@ class HiddenMarkovModel(_Model):
         if len(list(set(possible_states) & set(possible_symbols))) > 0:  # pragma: no cover
             raise _ValidationError('State names and symbol names must be different.')
 
+        if e_guess.shape[1] != len(possible_symbols):
+            raise _ValidationError(f'The "e_guess" parameter must have {len(possible_symbols):d} columns.')
+
         p, e, error_message = _fit(fitting_type, p_guess, e_guess, initial_status, symbols)
 
         if error_message is not None:  # pragma: no cover
-- 
2.43.0


From 81541c1810a8cbe909009d3fa1c3f71dd8c5c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 35/37] fix: reject a single state or symbol when a restriction
 needs at least two

---
 pydtmc/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 482bc59..2716741 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -513,6 +513,9 @@ def validate_label(value: _tany, labels: _tlist_str) -> int:
 
 def validate_labels_current(value: _tany, labels: _tlist_str, subset: bool, minimum_length: _oint = None) -> _tlist_int:
 
+    if (_is_integer(value) or _is_string(value)) and minimum_length is not None and minimum_length > 1:
+        raise ValueError(f'The "@arg@" parameter must contain at least {minimum_length:d} elements.')
+
     if _is_integer(value):
 
         value = int(value)
-- 
2.43.0


From 88cc5597b93ad007743ef10581b60e897de7e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 36/37] fix: small positive weights are normalised, not
 replaced by a uniform row

---
 pydtmc/hidden_markov_model.py | 8 ++++----
 pydtmc/markov_chain.py        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 625c165..5049216 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -857,14 +857,14 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
             else:
                 e[i, :] /= e_sums_i
@@ -909,14 +909,14 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
             else:
                 e[i, :] /= e_sums_i
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 25da846..603b577 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2503,7 +2503,7 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
             else:
                 p[i, :] /= p_sums_i
@@ -2542,7 +2542,7 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
             else:
                 p[i, :] /= p_sums_i
-- 
2.43.0


From 2b6e9e2871558da33542b02de52fc05661b96ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:35 +0000
Subject: [PATCH 37/37] fix: random_distribution keeps its rows stochastic when
 their draws add up beyond the largest float

---
 pydtmc/markov_chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 603b577..159d299 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2742,6 +2742,7 @@ class MarkovChain(_Model):
         p = f(size=(size, size), **kwargs).astype(float)
         p = _np.clip(_np.nan_to_num(p, copy=False), 0.0, None)
         p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[1], dtype=float)
+        p /= _np.max(p, axis=1, keepdims=True)
         p /= _np.sum(p, axis=1, keepdims=True)
 
         mc = MarkovChain(p, states)
-- 
2.43.0

