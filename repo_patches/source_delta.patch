From 5bf02e5d985ca5582ff7a87aabc04125523ecc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 01/69] fix: gradient of a logsum parameter shared by a nest
 and a nest inside it

The derivative of a nest's logsum with respect to its own parameter was
completed by dividing everything accumulated for that parameter by its value.
When the parameter also acts below the nest (on an inner nest, or in a utility)
that part is already complete and must not be divided. Divide only the nest's
own terms.
---
 larch/model/nl.pyx   | 7 +++----
 larch/numba/model.py | 5 ++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 881309d..aa22232 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -354,14 +354,13 @@ cdef void _nl_d_utility_upstream_v2(
 
 			if child >= n_elemental_alts:
 				if param_slot_of_mu[child] >= 0:
-					dU[child,param_slot_of_mu[child]] += utility[child]
-					dU[child,param_slot_of_mu[child]] /= mu[child]
+					dU[child,param_slot_of_mu[child]] += utility[child] / mu[child]
 
 			if param_slot_of_mu[parent] >= 0:
 				if alpha[e] == 1.0:
-					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child])
+					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child]) / mu[parent]
 				else:
-					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child] + mu[child]*logalpha[e])
+					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child] + mu[child]*logalpha[e]) / mu[parent]
 
 			for p in range(n_params):
 				dU[parent, p] += cond_prob * dU[child, p]
diff --git a/larch/numba/model.py b/larch/numba/model.py
index 9f92d87..970ffbc 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -418,12 +418,11 @@ def _numba_utility_to_loglike(
                     if dn >= n_alts:
                         dn_mu_slot = mu_slots[dn-n_alts]
                         if dn_mu_slot >= 0:
-                            dutility[dn, dn_mu_slot] += utility[dn]
-                            dutility[dn, dn_mu_slot] /= parameter_arr[dn_mu_slot]
+                            dutility[dn, dn_mu_slot] += utility[dn] / parameter_arr[dn_mu_slot]
                     up_mu_slot = mu_slots[up - n_alts]
                     if up_mu_slot >= 0:
                         # FIXME: alpha slots to appear here if cross-nesting is activated
-                        dutility[up, up_mu_slot] -= cond_prob * (utility[dn])
+                        dutility[up, up_mu_slot] -= cond_prob * (utility[dn]) / parameter_arr[up_mu_slot]
                     dutility[up, :] += cond_prob * dutility[dn, :]
 
             # d probability
-- 
2.43.0


From a19ed87e4a555f3286fb6a40c680361c19156cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 02/69] fix: tall (idce) DataFrames were silently ignored by
 the numba engine

A numba Model whose DataFrames hold data in idce format evaluated its utility
on empty arrays, without an error. Hand the tall rows to the engine.
---
 larch/numba/model.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 970ffbc..b0a0f63 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1053,15 +1053,28 @@ class NumbaModel(_BaseModel):
             if _array_ca.dtype != self.float_dtype:
                 _array_ca = _array_ca.astype(self.float_dtype)
 
+            _array_ce_data = np.zeros([0, _array_ca.shape[-1]], dtype=self.float_dtype)
+            _array_ce_altidx = np.zeros([0], dtype=np.int16)
+            _array_ce_caseptr = np.zeros([1], dtype=np.int16)
+            if self.dataframes.data_ce is not None:
+                # tall data: keep the rows of available alternatives, already sorted by case and alternative
+                _ce_case = np.asarray(self.dataframes.array_ce_caseindexes)
+                _ce_alt = np.asarray(self.dataframes.array_ce_altindexes)
+                _ce_keep = _array_av_cascade[_ce_case, _ce_alt] != 0
+                _array_ce_data = self.dataframes.array_ce()[_ce_keep].astype(self.float_dtype)
+                _array_ce_altidx = _ce_alt[_ce_keep].astype(np.int32)
+                _ce_edges = np.searchsorted(_ce_case[_ce_keep], np.arange(self.n_cases + 1))
+                _array_ce_caseptr = np.stack([_ce_edges[:-1], _ce_edges[1:]], axis=1)
+
             self._data_arrays = DataArrays(
                 (_array_ch_cascade),
                 (_array_av_cascade),
                 (_array_wt.reshape(-1)),
                 (_array_co),
                 (_array_ca),
-                np.zeros([0,_array_ca.shape[-1]], dtype=self.float_dtype),  # ce-data
-                np.zeros([0], dtype=np.int16),  # ce-indicies
-                np.zeros([1], dtype=np.int16),   # ce-indptr
+                _array_ce_data,
+                _array_ce_altidx,
+                _array_ce_caseptr,
             )
 
     def _rebuild_work_arrays(self, n_cases=None, n_nodes=None, n_params=None, on_missing_data='silent'):
@@ -1216,9 +1229,9 @@ class NumbaModel(_BaseModel):
                         self._data_arrays.wt,
                         self._data_arrays.co,
                         self._data_arrays.ca,
-                        np.zeros([0, self._data_arrays.ca.shape[-1]], dtype=self.float_dtype),  # ce-data
-                        np.zeros([0], dtype=np.int16),  # ce-indicies
-                        np.zeros([1], dtype=np.int16),  # ce-indptr
+                        self._data_arrays.ce_data,
+                        self._data_arrays.ce_altidx,
+                        self._data_arrays.ce_caseptr,
                     )
                 else:
                     raise MissingDataError('model.dataframes does not define data_ch')
-- 
2.43.0


From 2fd1f46292b3075e4405e86d27d8a82d359c21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 03/69] fix: numba engine gave a non-zero gradient to a
 holdfast logsum parameter

Every other kind of parameter, and the native engine for this kind, has a zero
derivative while it is held fast.
---
 larch/numba/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index b0a0f63..cf0be4f 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -417,10 +417,10 @@ def _numba_utility_to_loglike(
                     cond_prob = conditional_probability[dn]
                     if dn >= n_alts:
                         dn_mu_slot = mu_slots[dn-n_alts]
-                        if dn_mu_slot >= 0:
+                        if dn_mu_slot >= 0 and not holdfast_arr[dn_mu_slot]:
                             dutility[dn, dn_mu_slot] += utility[dn] / parameter_arr[dn_mu_slot]
                     up_mu_slot = mu_slots[up - n_alts]
-                    if up_mu_slot >= 0:
+                    if up_mu_slot >= 0 and not holdfast_arr[up_mu_slot]:
                         # FIXME: alpha slots to appear here if cross-nesting is activated
                         dutility[up, up_mu_slot] -= cond_prob * (utility[dn]) / parameter_arr[up_mu_slot]
                     dutility[up, :] += cond_prob * dutility[dn, :]
@@ -464,7 +464,7 @@ def _numba_utility_to_loglike(
                     for p in range(parameter_arr.size):
                         if mu_up:
                             scratch_ = dutility[dn, p] - dutility[up, p]
-                            if p == up_mu_slot:
+                            if p == up_mu_slot and not holdfast_arr[p]:
                                 scratch_ += (utility[up] - utility[dn]) / mu_up
                                 # FIXME: alpha slots to appear here if cross-nesting is activated
                             scratch_ *= probability[up] / mu_up
-- 
2.43.0


From 4d19fb0304d1a3e9debce6283316690e7de0c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 04/69] fix: gradient when one parameter appears in several
 quantity terms

The derivative accumulated for such a parameter was divided by the total
quantity once per term instead of once.
---
 larch/dataframes.pyx | 10 +++++++---
 larch/numba/model.py | 20 ++++++++++++++------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 9b7b699..8b7d76c 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2411,12 +2411,16 @@ cdef class DataFrames:
 							_temp = self._array_ca[c, j, self.model_quantity_ca_data[i]]
 						_temp *= self.model_quantity_ca_param_value[i] * self.model_quantity_ca_param_scale[i]
 						U[j] += _temp
-						if not self.model_quantity_ca_param_holdfast[i]:
-							dU[j,self.model_quantity_ca_param[i]] += _temp * self.model_quantity_scale_param_value
 
+					# a parameter may appear in more than one quantity term
 					for i in range(self.model_quantity_ca_param.shape[0]):
 						if not self.model_quantity_ca_param_holdfast[i]:
-							dU[j,self.model_quantity_ca_param[i]] /= U[j]
+							if row >= 0:
+								_temp = self._array_ce[row, self.model_quantity_ca_data[i]]
+							else:
+								_temp = self._array_ca[c, j, self.model_quantity_ca_data[i]]
+							_temp *= self.model_quantity_ca_param_value[i] * self.model_quantity_ca_param_scale[i]
+							dU[j,self.model_quantity_ca_param[i]] += _temp * self.model_quantity_scale_param_value / U[j]
 
 					if Q is not None:
 						Q[j] = U[j]
diff --git a/larch/numba/model.py b/larch/numba/model.py
index cf0be4f..4630bcc 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -121,12 +121,16 @@ def quantity_from_data_ca(
                             * np.exp(parameter_arr[model_q_ca_param[i]])
                     )
                     utility_elem[j] += _temp
-                    if not holdfast_arr[model_q_ca_param[i]]:
-                        dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value
 
+                # a parameter may appear in more than one quantity term
                 for i in range(model_q_ca_param.shape[0]):
                     if not holdfast_arr[model_q_ca_param[i]]:
-                        dutility_elem[j, model_q_ca_param[i]] /= utility_elem[j]
+                        _temp = (
+                                array_ce_data[row, model_q_ca_data[i]]
+                                * model_q_ca_param_scale[i]
+                                * np.exp(parameter_arr[model_q_ca_param[i]])
+                        )
+                        dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value / utility_elem[j]
 
                 _tempsize = np.log(utility_elem[j])
                 utility_elem[j] = _tempsize * scale_param_value
@@ -157,12 +161,16 @@ def quantity_from_data_ca(
                             * np.exp(parameter_arr[model_q_ca_param[i]])
                         )
                         utility_elem[j] += _temp
-                        if not holdfast_arr[model_q_ca_param[i]]:
-                            dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value
 
+                    # a parameter may appear in more than one quantity term
                     for i in range(model_q_ca_param.shape[0]):
                         if not holdfast_arr[model_q_ca_param[i]]:
-                            dutility_elem[j, model_q_ca_param[i]] /= utility_elem[j]
+                            _temp = (
+                                array_ca[j, model_q_ca_data[i]]
+                                * model_q_ca_param_scale[i]
+                                * np.exp(parameter_arr[model_q_ca_param[i]])
+                            )
+                            dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value / utility_elem[j]
 
                     _tempsize = np.log(utility_elem[j])
                     utility_elem[j] = _tempsize * scale_param_value
-- 
2.43.0


From bf092cb91e380bea75af67fd914ffc68f6b79342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 05/69] fix: compiled engine read outside the data when a case
 slice was negative or ran past the end

---
 larch/model/controller.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 1df6002..a34884f 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -630,6 +630,12 @@ cdef class Model5c(AbstractChoiceModel):
 			int         subsample= 1,
 			bint        probability_only=False,
 	):
+		if step_case > 0:
+			# resolve the case slice the way Python does, except that a stop of -1 means all the way to the end
+			start_case, stop_case, step_case = slice(
+				start_case, None if stop_case == -1 else stop_case, step_case
+			).indices(self._dataframes._n_cases())
+			stop_case = max(start_case, stop_case)
 		if self.is_mnl() and not (persist & PERSIST_D_PROBABILITY):
 			from .mnl import mnl_d_log_likelihood_from_dataframes_all_rows
 			y = mnl_d_log_likelihood_from_dataframes_all_rows(
-- 
2.43.0


From d9e2f9b8e08419215dfe6b957c54fc0be00d5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 06/69] fix: log likelihood of a subsample was recorded as the
 best log likelihood

---
 larch/model/controller.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index a34884f..1035704 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -736,7 +736,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		# if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 		# 	y['dll'] = pandas.Series(y['dll'], index=self.frame.index, )
@@ -802,7 +802,7 @@ cdef class Model5c(AbstractChoiceModel):
 			keep_only=keep_only,
 			subsample=subsample,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 			y['dll'] = pandas.Series(y['dll'], index=self._frame.index, )
@@ -922,7 +922,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		if probability_only:
 			return y.probability
-- 
2.43.0


From 01119f0ae87a05bc3b96b8b3335dfafdba874780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 07/69] fix: numba engine ignored leave_out/keep_only, so cross
 validation used every case

---
 larch/numba/model.py | 58 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 4630bcc..dab0f09 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1063,7 +1063,7 @@ class NumbaModel(_BaseModel):
 
             _array_ce_data = np.zeros([0, _array_ca.shape[-1]], dtype=self.float_dtype)
             _array_ce_altidx = np.zeros([0], dtype=np.int16)
-            _array_ce_caseptr = np.zeros([1], dtype=np.int16)
+            _array_ce_caseptr = np.zeros([self.n_cases, 0], dtype=np.int16)
             if self.dataframes.data_ce is not None:
                 # tall data: keep the rows of available alternatives, already sorted by case and alternative
                 _ce_case = np.asarray(self.dataframes.array_ce_caseindexes)
@@ -1389,8 +1389,19 @@ class NumbaModel(_BaseModel):
             start_case=None,
             stop_case=None,
             step_case=None,
+            leave_out=-1,
+            keep_only=-1,
+            subsample=-1,
     ):
         caseslice = slice(start_case, stop_case, step_case)
+        if leave_out >= 0 or keep_only >= 0:
+            # cross validation: drop (or keep only) one fold of the cases
+            rows = np.arange(self.n_cases)[caseslice]
+            if leave_out >= 0:
+                rows = rows[rows % subsample != leave_out]
+            if keep_only >= 0:
+                rows = rows[rows % subsample == keep_only]
+            caseslice = rows
         args = self.__prepare_for_compute(
             x,
             allow_missing_ch=return_probability or (only_utility>0),
@@ -1417,12 +1428,12 @@ class NumbaModel(_BaseModel):
 
                 if self.constraint_intensity:
                     penalty, dpenalty, dpenalty_binding = self.constraint_penalty()
-                    self.work_arrays.loglike[caseslice] += penalty
-                    self.work_arrays.d_loglike[caseslice] += np.expand_dims(dpenalty, 0)
-                    self.work_arrays.bhhh[caseslice] = np.einsum(
+                    result_arrays.loglike[:] += penalty
+                    result_arrays.d_loglike[:] += np.expand_dims(dpenalty, 0)
+                    result_arrays.bhhh[:] = np.einsum(
                         'ij,ik->ijk',
-                        self.work_arrays.d_loglike[caseslice],
-                        self.work_arrays.d_loglike[caseslice],
+                        result_arrays.d_loglike,
+                        result_arrays.d_loglike,
                     )
                 else:
                     penalty = 0.0
@@ -1463,6 +1474,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs
     ):
         """
@@ -1495,10 +1507,12 @@ class NumbaModel(_BaseModel):
         float
         """
         result_arrays, penalty = self._loglike_runner(
-            x, start_case=start_case, stop_case=stop_case, step_case=step_case
+            x, start_case=start_case, stop_case=stop_case, step_case=step_case,
+            leave_out=leave_out, keep_only=keep_only, subsample=subsample,
         )
         result = result_arrays.loglike.sum() * self.weight_normalization
-        if start_case is None and stop_case is None and step_case is None:
+        if (start_case is None and stop_case is None and step_case is None
+                and leave_out < 0 and keep_only < 0):
             self._check_if_best(result)
         return result
 
@@ -1507,6 +1521,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             return_series=False,
             **kwargs,
     ):
@@ -1515,6 +1530,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         result = result_arrays.d_loglike.sum(0) * self.weight_normalization
@@ -1527,6 +1545,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs,
     ):
         result_arrays, penalty = self._loglike_runner(
@@ -1534,6 +1553,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
         )
         return result_arrays.loglike * self.weight_normalization
 
@@ -1542,6 +1564,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs,
     ):
         result_arrays, penalty = self._loglike_runner(
@@ -1549,6 +1572,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         return result_arrays.d_loglike * self.weight_normalization
@@ -1558,6 +1584,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             return_dataframe=False,
             **kwargs,
     ):
@@ -1566,6 +1593,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_bhhh=True,
         )
         result = result_arrays.bhhh.sum(0) * self.weight_normalization
@@ -1764,13 +1794,17 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         result = dictx(
             ll=result_arrays.loglike.sum() * self.weight_normalization,
             dll=result_arrays.d_loglike.sum(0) * self.weight_normalization,
         )
-        if start_case is None and stop_case is None and step_case is None:
+        if (start_case is None and stop_case is None and step_case is None
+                and leave_out < 0 and keep_only < 0):
             self._check_if_best(result.ll)
         if return_series:
             result['dll'] = pd.Series(result['dll'], index=self._frame.index, )
@@ -1792,6 +1826,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
             return_bhhh=True,
         )
@@ -1805,7 +1842,8 @@ class NumbaModel(_BaseModel):
             result['ll_casewise'] = result_arrays.loglike * self.weight_normalization
         if persist & PERSIST_D_LOGLIKE_CASEWISE:
             result['dll_casewise'] = result_arrays.d_loglike * self.weight_normalization
-        if start_case is None and stop_case is None and step_case is None:
+        if (start_case is None and stop_case is None and step_case is None
+                and leave_out < 0 and keep_only < 0):
             self._check_if_best(result.ll)
         if return_series:
             result['dll'] = pd.Series(result['dll'], index=self._frame.index, )
-- 
2.43.0


From 80811c658e86a9ed351c8aaf4724148bf3670f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 08/69] fix: arrays returned by the numba engine were
 overwritten by later evaluations

---
 larch/numba/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index dab0f09..a0fc26c 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1663,7 +1663,8 @@ class NumbaModel(_BaseModel):
             step_case=step_case,
             return_probability=True,
         )
-        pr = result_arrays.probability
+        # a copy, as the working array is overwritten by the next evaluation
+        pr = result_arrays.probability.copy()
         if not include_nests:
             pr = pr[:, :self.graph.n_elementals()]
         return self._wrap_as_dataframe(
@@ -1726,7 +1727,7 @@ class NumbaModel(_BaseModel):
             only_utility=2,
         )
         return self._wrap_as_dataframe(
-            result_arrays.utility,
+            result_arrays.utility.copy(),
             return_format,
             start_case=start_case,
             stop_case=stop_case,
@@ -1750,7 +1751,7 @@ class NumbaModel(_BaseModel):
             only_utility=3,
         )
         return self._wrap_as_dataframe(
-            result_arrays.utility,
+            result_arrays.utility.copy(),
             return_dataframe,
         )
 
@@ -1773,7 +1774,7 @@ class NumbaModel(_BaseModel):
         if arr is not None:
             arr[start_case:stop_case:step_case] = result_arrays.utility[:,-1]
             return arr
-        return result_arrays.utility[:,-1]
+        return result_arrays.utility[:,-1].copy()
 
     def loglike2(
             self,
-- 
2.43.0


From 4bb2143c89068892236cd19d17b4b0ccdc37c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 09/69] fix: idca data and weights whose cases are not in
 ascending order were matched with the wrong cases

---
 larch/dataframes.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 8b7d76c..650330b 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1509,6 +1509,13 @@ cdef class DataFrames:
 			altindex_name = self._altindex_name or df.index.names[1]
 			df = df.set_index(df.index.set_names([caseindex_name, altindex_name]))
 
+			# Sort by case and alternative, as for the other tables, so that the rows of
+			# every table are for the same cases.
+			if not df.index.is_monotonic_increasing:
+				row_order = numpy.lexsort((df.index.codes[1], df.index.get_level_values(0)))
+				if not numpy.array_equal(row_order, numpy.arange(len(df))):
+					df = df.iloc[row_order]
+
 			if self._computational:
 				self._data_ca = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_ca')
 				self._array_ca = _df_values(self.data_ca, (self.n_cases, self.n_alts, -1))
@@ -1854,6 +1861,8 @@ cdef class DataFrames:
 	def data_wt(self, df:pandas.DataFrame):
 		if isinstance(df, pandas.Series):
 			df=pandas.DataFrame(df)
+		if df is not None and not df.index.is_monotonic_increasing:
+			df = df.sort_index()
 		self._data_wt = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_wt')
 		self._array_wt = _df_values(self.data_wt, (self.n_cases, ))
 
-- 
2.43.0


From 288db9609f486c8b4e8379fecb6d4395f5608b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 10/69] fix: labelled utilities and probabilities without idco
 data, and idce labels of part of the cases

---
 larch/model/controller.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 1035704..f23772f 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -968,13 +968,13 @@ cdef class Model5c(AbstractChoiceModel):
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_names,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		elif return_dataframe:
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_codes,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		else:
 			return arr
@@ -985,13 +985,13 @@ cdef class Model5c(AbstractChoiceModel):
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_names if self.is_mnl() else self.graph.standard_sort_names,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		elif return_dataframe:
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_codes if self.is_mnl() else self.graph.standard_sort,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		else:
 			return arr
@@ -1045,7 +1045,7 @@ cdef class Model5c(AbstractChoiceModel):
 			if not include_nests:
 				arr = arr[:,:self._dataframes._n_alts()]
 			if return_dataframe:
-				idx = self._dataframes._data_co.index if self._dataframes._data_co is not None else None
+				idx = self._dataframes.caseindex
 				if idx is not None:
 					if stop_case == -1:
 						stop_case = len(idx)
@@ -1064,7 +1064,7 @@ cdef class Model5c(AbstractChoiceModel):
 					index=idx,
 				)
 				if return_dataframe == 'idce':
-					return result.stack()[self._dataframes._data_av.stack().astype(bool).values]
+					return result.stack()[self._dataframes._data_av.iloc[start_case:stop_case:step_case].stack().astype(bool).values]
 				elif return_dataframe == 'idca':
 					return result.stack()
 				else:
-- 
2.43.0


From bfd08abd7a78060ba955a467e999d211b7bdb5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 11/69] fix: gradient of the logsum parameters of cross-nested
 models when a nest has several parents

---
 larch/model/nl.pyx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index aa22232..28d692a 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -344,6 +344,8 @@ cdef void _nl_d_utility_upstream_v2(
 	for parent in range(n_elemental_alts, n_nodes):
 		for p in range(n_params):
 			dU[parent, p] = 0
+		if param_slot_of_mu[parent] >= 0 and utility[parent] > -INFINITY32:
+			dU[parent, param_slot_of_mu[parent]] += utility[parent] / mu[parent]
 
 	for e in range(n_edges):
 		parent = ups[e]
@@ -352,15 +354,11 @@ cdef void _nl_d_utility_upstream_v2(
 		if cond_logprob > -INFINITY32:
 			cond_prob = exp(cond_logprob)
 
-			if child >= n_elemental_alts:
-				if param_slot_of_mu[child] >= 0:
-					dU[child,param_slot_of_mu[child]] += utility[child] / mu[child]
-
 			if param_slot_of_mu[parent] >= 0:
 				if alpha[e] == 1.0:
 					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child]) / mu[parent]
 				else:
-					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child] + mu[child]*logalpha[e]) / mu[parent]
+					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child] + logalpha[e]) / mu[parent]
 
 			for p in range(n_params):
 				dU[parent, p] += cond_prob * dU[child, p]
-- 
2.43.0


From 5ab9cf1631f67edcb34322ed5a403b5bbe41c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 12/69] fix: logsums, utilities and probabilities when
 exponentials of utility are out of range

---
 larch/dataframes.pyx | 21 ++-------------------
 larch/model/mnl.pyx  | 36 ++++++++++++++++++++++++++++++------
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 650330b..ce94624 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2391,7 +2391,7 @@ cdef class DataFrames:
 		cdef:
 			int i,j,k, altindex
 			int64_t row = -2
-			l4_float_t  _temp, _temp_data, _max_U=0
+			l4_float_t  _temp, _temp_data
 
 		if not self._is_computational_ready(activate=True):
 			return
@@ -2466,14 +2466,6 @@ cdef class DataFrames:
 					if not self.model_utility_co_param_holdfast[i]:
 						dU[altindex,self.model_utility_co_param[i]] += _temp
 
-		# Keep exp(U) from generating overflow
-		for j in range(n_alts):
-			if U[j] > _max_U:
-				_max_U = U[j]
-		if _max_U > 500:
-			for j in range(n_alts):
-				U[j] -= _max_U
-
 
 	@cython.boundscheck(False)
 	@cython.initializedcheck(False)
@@ -2499,13 +2491,12 @@ cdef class DataFrames:
 		cdef:
 			int i,j,k, altindex
 			int64_t row = -2
-			l4_float_t  _temp, _temp_data, _max_U
+			l4_float_t  _temp, _temp_data
 
 		if not self._is_computational_ready(activate=True):
 			return
 
 		U[:] = 0
-		_max_U = 0
 		if Q is not None:
 			Q[:]=0
 
@@ -2555,14 +2546,6 @@ cdef class DataFrames:
 					_temp = self._array_co[c, self.model_utility_co_data[i]] * self.model_utility_co_param_scale[i]
 					U[altindex] += _temp * self.model_utility_co_param_value[i]
 
-		# Keep exp(U) from generating overflow
-		for j in range(n_alts):
-			if U[j] > _max_U:
-				_max_U = U[j]
-		if _max_U > 500:
-			for j in range(n_alts):
-				U[j] -= _max_U
-
 
 	def compute_d_utility_onecase(
 			self,
diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index d887839..d78d1c3 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -102,6 +102,7 @@ cdef void _mnl_probability_from_utility(
 		int i
 		l4_float_t sum_expU = 0
 		l4_float_t x
+		l4_float_t max_U
 
 	for i in range(n_alts):
 		if utility[i] < -3.402823e38:
@@ -110,9 +111,22 @@ cdef void _mnl_probability_from_utility(
 			x = exp_utility[i] = exp(utility[i])
 			sum_expU += x
 
-	if sum_expU == 0:
+	if sum_expU < 1e-290 or sum_expU > 1e300:
+		# exponentials out of range, measure utility from its maximum
+		max_U = -INFINITY32
 		for i in range(n_alts):
-			probability[i] = 0
+			if utility[i] > max_U:
+				max_U = utility[i]
+		sum_expU = 0
+		for i in range(n_alts):
+			if utility[i] < -3.402823e38:
+				probability[i] = 0
+			else:
+				probability[i] = exp(utility[i] - max_U)
+				sum_expU += probability[i]
+		if sum_expU > 0:
+			for i in range(n_alts):
+				probability[i] /= sum_expU
 	else:
 		for i in range(n_alts):
 			probability[i] = exp_utility[i] / sum_expU
@@ -128,16 +142,21 @@ cdef void _mnl_logsum_from_utility(
 		int i
 		l4_float_t sum_expU = 0
 		l4_float_t x
+		l4_float_t max_U = -INFINITY32
+
+	for i in range(n_alts):
+		if utility[i] > max_U:
+			max_U = utility[i]
 
 	for i in range(n_alts):
 		if utility[i] > -3.402823e38:
-			x = exp(utility[i])
+			x = exp(utility[i] - max_U)
 			sum_expU += x
 
 	if sum_expU == 0:
 		logsum[0] = -INFINITY32
 	else:
-		logsum[0] = log(sum_expU)
+		logsum[0] = log(sum_expU) + max_U
 
 @cython.cdivision(True)
 cdef void _mnl_logsum_from_utility_MU(
@@ -150,6 +169,7 @@ cdef void _mnl_logsum_from_utility_MU(
 		int i
 		l4_float_t sum_expU = 0
 		l4_float_t x
+		l4_float_t max_U = -INFINITY32
 
 	if mu==0:
 		sum_expU = -INFINITY32
@@ -158,15 +178,19 @@ cdef void _mnl_logsum_from_utility_MU(
 				sum_expU = utility[i]
 		logsum[0] = sum_expU
 	else:
+		for i in range(n_alts):
+			if utility[i] > max_U:
+				max_U = utility[i]
+
 		for i in range(n_alts):
 			if utility[i] > -3.402823e38:
-				x = exp(utility[i]/mu)
+				x = exp((utility[i] - max_U)/mu)
 				sum_expU += x
 
 		if sum_expU == 0:
 			logsum[0] = -INFINITY32
 		else:
-			logsum[0] = log(sum_expU)*mu
+			logsum[0] = log(sum_expU)*mu + max_U
 
 
 ctypedef void (*PROB_FROM_UTIL)(
-- 
2.43.0


From 0ca92a3814f15f0009a8806c14ced0949e1d188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 13/69] fix: nesting tree edits and remove_param/remove_data
 after an evaluation were ignored

---
 larch/model/controller.pyx | 8 ++++++++
 larch/model/linear.pyx     | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index f23772f..3134d15 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -1276,11 +1276,19 @@ cdef class Model5c(AbstractChoiceModel):
 			except ValueError:
 				import warnings
 				warnings.warn('cannot initialize graph, must define dataframes, dataservice, or give alternative_codes explicitly')
+		if self._graph is not None:
+			# changes in the graph are changes in the model
+			self._graph._instance = self
 		return self._graph
 
 	@graph.setter
 	def graph(self, x):
+		prior_graph = self._graph
 		self._graph = x
+		if x is not None:
+			x._instance = self
+		if prior_graph is not None or not self.is_mnl():
+			self.mangle()
 
 	def initialize_graph(self, dataframes=None, alternative_codes=None, alternative_names=None, root_id=0):
 		"""
diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 60fde86..b1bf724 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -878,6 +878,7 @@ cdef class LinearFunction_C:
 			i -= 1
 			if self._func[i].data == data:
 				del self._func[i]
+		_try_mangle(self._instance)
 		return self
 
 	def remove_param(self, param):
@@ -900,6 +901,7 @@ cdef class LinearFunction_C:
 			i -= 1
 			if self._func[i].param == param:
 				del self._func[i]
+		_try_mangle(self._instance)
 		return self
 
 	def __len__(self):
-- 
2.43.0


From a2ced22d9592a2f2ef9b716c8d6b21d137c0d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 14/69] fix: quantity scale left set on a model without
 quantity terms raised KeyError

---
 larch/dataframes.pyx | 2 +-
 larch/numba/model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index ce94624..d4ee27c 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2140,7 +2140,7 @@ cdef class DataFrames:
 					self.model_quantity_ca_param[n] = model._frame.index.get_loc(str(i.param))
 					self.model_quantity_ca_data [n] = self._data_ca_or_ce.columns.get_loc(str(i.data))
 					self.model_quantity_ca_param_scale[n] = i.scale
-				if model._quantity_scale is not None:
+				if model._quantity_scale is not None and len_model_utility_ca:
 					self.model_quantity_scale_param = model._frame.index.get_loc(str(model._quantity_scale))
 				else:
 					self.model_quantity_scale_param = -1
diff --git a/larch/numba/model.py b/larch/numba/model.py
index a0fc26c..2457c80 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -858,7 +858,7 @@ def model_q_ca_slots(data_provider, model, dtype=np.float64):
     model_q_ca_param_scale = np.ones([len_model_q_ca], dtype=dtype)
     model_q_ca_param = np.zeros([len_model_q_ca], dtype=np.int32)
     model_q_ca_data = np.zeros([len_model_q_ca], dtype=np.int32)
-    if model.quantity_scale:
+    if model.quantity_scale and len_model_q_ca:
         model_q_scale_param = model._frame.index.get_loc(str(model.quantity_scale))
     else:
         model_q_scale_param = np.zeros([1], dtype=np.int32)-1
-- 
2.43.0


From 59626a07c79f9d2a99623350fb9c39f405ac606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 15/69] fix: removing a nest made the root links of its
 children permanent

---
 larch/model/tree.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 0278557..c1bcbc4 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -321,11 +321,15 @@ class NestingTree(nx.DiGraph):
                 A node in the graph
         """
         replace_edges = {k: self.edges[k].copy() for k in self.edges(n)}
-        replace_heads = [k for k, _ in self.in_edges(n)]
+        replace_heads = {
+            k: implied for k, _, implied in self.in_edges(n, data="implied")
+        }
         super(NestingTree, self).remove_node(n)
         for k, attrs in replace_edges.items():
-            for h in replace_heads:
-                super().add_edge(h, k[1], **attrs)
+            for h, implied in replace_heads.items():
+                # an implied link to the removed node stays implied, so that
+                # it yields when the child is placed in another nest
+                super().add_edge(h, k[1], **{**attrs, "implied": bool(implied)})
         self._clear_caches()
 
     @lazy
-- 
2.43.0


From f5e6c73de70759683785330ddab9ec73d5eb7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 16/69] fix: gradient checks and interrupted analyses left the
 parameters moved

---
 larch/model/abstract_model.pyx | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 4985b13..e04ce26 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -588,7 +588,11 @@ cdef class AbstractChoiceModel(ParameterFrame):
 			epsilon=np.sqrt(np.finfo(float).eps)
 		ELSE:
 			epsilon=0.0001
-		return check_gradient(self.loglike, self.d_loglike, self.pvals.copy(), names=self.pnames, stylize=stylize, skip_zeros=skip_zeros, epsilon=epsilon)
+		current_parameters = self.get_values()
+		try:
+			return check_gradient(self.loglike, self.d_loglike, self.pvals.copy(), names=self.pnames, stylize=stylize, skip_zeros=skip_zeros, epsilon=epsilon)
+		finally:
+			self.set_values(current_parameters)
 
 	@property
 	def n_cases(self):
@@ -734,9 +738,11 @@ cdef class AbstractChoiceModel(ParameterFrame):
 			raise ValueError("no cached value")
 		else:
 			current_parameters = self.get_values()
-			self.set_values('null')
-			self._cached_loglike_null = self.loglike()
-			self.set_values(current_parameters)
+			try:
+				self.set_values('null')
+				self._cached_loglike_null = self.loglike()
+			finally:
+				self.set_values(current_parameters)
 			return self._cached_loglike_null
 
 	def rho_sq_null(self, x=None, use_cache=True, adj=False):
@@ -1279,9 +1285,11 @@ cdef class AbstractChoiceModel(ParameterFrame):
 						self.pf.loc[param, 'likelihood_ratio'] = 0
 					return 0
 				else:
-					self.set_value(param, ref_value)
-					ll_alt = self.loglike()
-					self.set_value(param, current_value)
+					try:
+						self.set_value(param, ref_value)
+						ll_alt = self.loglike()
+					finally:
+						self.set_value(param, current_value)
 					like_ratio = _current_ll - ll_alt
 					if ref_value_orig is None:
 						self.pf.loc[param, 'likelihood_ratio'] = like_ratio
-- 
2.43.0


From 8e37a5e859dacf1c81f3d664a07eeaf720596ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 17/69] fix: models sharing dataframes overwrote each other's
 arrays and weights

---
 larch/dataframes.pyx       | 17 +++++++++++++++++
 larch/model/controller.pyx |  5 ++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index d4ee27c..e5dd580 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2860,6 +2860,17 @@ cdef class DataFrames:
 				self._std_scaler_ce.fit(self.data_ce.values, Xmask=mask)
 				self.data_ce.values[:] = self._std_scaler_ce.transform(self.data_ce.values)
 
+	def _unshare_weights(self, include_choices=False):
+		# The choices and weights can be shared with other DataFrames, or with whoever provided
+		# them, so they are rescaled on private copies.
+		if self._data_wt is not None:
+			self._data_wt = self._data_wt.copy()
+			self._array_wt = _df_values(self._data_wt, (self.n_cases, ))
+		if include_choices and self._data_ch is not None:
+			shape = numpy.asarray(self._array_ch).shape
+			self._data_ch = self._data_ch.copy()
+			self._array_ch = _df_values(self._data_ch, shape)
+
 	def scale_weights(self, scale):
 		"""
 		Scale the weights by a fixed exogenous value.
@@ -2899,6 +2910,8 @@ cdef class DataFrames:
 			)
 			self._data_wt_name = 'computed_weight'
 
+		self._unshare_weights(include_choices=need_to_extract_wgt_from_ch)
+
 		if need_to_extract_wgt_from_ch:
 			while i < self._array_ch.shape[0]:
 				temp = 0
@@ -2959,6 +2972,8 @@ cdef class DataFrames:
 			)
 			self._data_wt_name = 'computed_weight'
 
+		self._unshare_weights(include_choices=need_to_extract_wgt_from_ch)
+
 		if need_to_extract_wgt_from_ch:
 			while i < self._array_ch.shape[0]:
 				temp = 0
@@ -2995,6 +3010,8 @@ cdef class DataFrames:
 
 		scale_level = self._weight_normalization
 
+		self._unshare_weights()
+
 		for i in range(self._array_wt.shape[0]):
 			self._array_wt[i] *= scale_level
 
diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 3134d15..da99e2c 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -276,7 +276,7 @@ cdef class Model5c(AbstractChoiceModel):
 	def _frame_values_have_changed(self):
 		# refresh everything # TODO: only refresh what changed
 		try:
-			if self._dataframes is not None:
+			if self._dataframes is not None and self._dataframes._model is self:
 				self._dataframes._read_in_model_parameters()
 		except AttributeError:
 			# the model may not have been ever unmangled yet
@@ -850,6 +850,9 @@ cdef class Model5c(AbstractChoiceModel):
 		if x is not None:
 			self.set_values(x)
 		self.unmangle()
+		if self._dataframes._model is not self:
+			# another model was attached to these dataframes in the meantime
+			self._refresh_derived_arrays()
 		self._dataframes._read_in_model_parameters()
 		if self._dataframes._data_ch is None:
 			if allow_missing_ch or self._does_not_require_choice:
-- 
2.43.0


From a0533f71847e4e17527dbb138a46ea56bf593a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 18/69] fix: reference log likelihoods were kept when the data
 or the model changed

---
 larch/model/abstract_model.pyx | 7 +++++++
 larch/model/controller.pyx     | 7 ++++---
 larch/numba/model.py           | 1 +
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index e04ce26..ff6ecb9 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -48,8 +48,15 @@ cdef class AbstractChoiceModel(ParameterFrame):
 
 	def mangle(self, *args, **kwargs):
 		self.clear_best_loglike()
+		self._cached_loglike_null = 0
 		super().mangle(*args, **kwargs)
 
+	def _clear_reference_loglikes(self):
+		"""Forget the reference log likelihoods, which do not apply after the data changes."""
+		self._cached_loglike_null = 0
+		self._cached_loglike_nil = 0
+		self._cached_loglike_constants_only = 0
+
 	def clear_best_loglike(self):
 		if self._frame is not None and 'best' in self._frame.columns:
 			del self._frame['best']
diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index da99e2c..3291698 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -169,14 +169,14 @@ cdef class Model5c(AbstractChoiceModel):
 		(self._display_order_tail            ) = state["_display_order_tail            ".strip()]
 		(self._possible_overspecification    ) = state["_possible_overspecification    ".strip()]
 		(self._most_recent_estimation_result ) = state["_most_recent_estimation_result ".strip()]
-		(self._cached_loglike_nil            ) = state["_cached_loglike_nil            ".strip()]
-		(self._cached_loglike_null           ) = state["_cached_loglike_null           ".strip()]
-		(self._cached_loglike_constants_only ) = state["_cached_loglike_constants_only ".strip()]
 		(self._cached_loglike_best           ) = state["_cached_loglike_best           ".strip()]
 		(self._title                         ) = state["_title                         ".strip()]
 		(self._matrixes                      ) = state["_matrixes                      ".strip()]
 
 		self.unmangle(True)
+		(self._cached_loglike_nil            ) = state["_cached_loglike_nil            ".strip()]
+		(self._cached_loglike_null           ) = state["_cached_loglike_null           ".strip()]
+		(self._cached_loglike_constants_only ) = state["_cached_loglike_constants_only ".strip()]
 		self.n_threads = 0
 		self._prior_frame_values = None
 		# if self._graph is not None:
@@ -519,6 +519,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 		x.computational = True
 		self.clear_best_loglike()
+		self._clear_reference_loglikes()
 
 		#self.unmangle() # don't do a full unmangle here, it will fail if the old data is incomplete
 		if self._mangled:
diff --git a/larch/numba/model.py b/larch/numba/model.py
index 2457c80..232849c 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1990,6 +1990,7 @@ class NumbaModel(_BaseModel):
 
         x.computational = True
         self.clear_best_loglike()
+        self._clear_reference_loglikes()
 
         # self.unmangle() # don't do a full unmangle here, it will fail if the old data is incomplete
         if self._is_mangled():
-- 
2.43.0


From ef8359b90e3fff689fa37a12e77efa6850ee5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 19/69] fix: jump starting native BHHH failed

---
 larch/model/abstract_model.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index ff6ecb9..4149c0e 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -315,7 +315,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		"""
 		for jump in range(jumpstart):
 			j_pvals = self.pvals.copy()
-			n_cases = self._dataframes._n_cases()
+			n_cases = self.n_cases
 			jump_breaks = list(range(0,n_cases, n_cases//jumpstart_split+(1 if n_cases%jumpstart_split else 0))) + [-1]
 			for j0,j1 in zip(jump_breaks[:-1],jump_breaks[1:]):
 				j_ll, current_dll, current_bhhh = self._loglike2_bhhh_tuple(start_case=j0, stop_case=j1,
@@ -353,14 +353,18 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		-------
 		loglike, convergence_tolerance, n_iters, steps
 		"""
-		current_pvals = self.pvals.copy()
 		iter = 0
 		steps = []
 
 		if jumpstart:
-			self.jumpstart_bhhh(jumpstart=jumpstart, jumpstart_split=jumpstart_split)
+			self.jumpstart_bhhh(
+				jumpstart=jumpstart, jumpstart_split=jumpstart_split,
+				leave_out=leave_out, keep_only=keep_only, subsample=subsample,
+			)
 			iter += jumpstart
 
+		current_pvals = self.pvals.copy()
+
 		current_ll, current_dll, current_bhhh = self._loglike2_bhhh_tuple(leave_out=leave_out,
 																		  keep_only=keep_only,
 																		  subsample=subsample,
-- 
2.43.0


From 473df621a1f331b44191bc56da1bfbbb6c71ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 20/69] fix: estimation with scipy methods left the model at
 the last point tried

---
 larch/model/optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index 5d081d0..ddb06e3 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -328,6 +328,10 @@ def maximize_loglike(
                     constraints=constraints,
                     **kwargs
                 )
+                # the last point evaluated need not be the one that is reported
+                if np.all(np.isfinite(raw_result['x'])):
+                    model.set_values(raw_result['x'])
+                    raw_result['x'] = model.pvals
             except:
                 dashboard.update(
                     f'Iteration {iteration_number:03} [Exception] {iteration_number_tail}',
-- 
2.43.0


From 0e50a8118e05f4713a740a991558e41729b8ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 21/69] fix: numba BHHH continued with the log likelihood of a
 rejected step

---
 larch/numba/optimization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/larch/numba/optimization.py b/larch/numba/optimization.py
index cc96b7e..63442a6 100644
--- a/larch/numba/optimization.py
+++ b/larch/numba/optimization.py
@@ -172,6 +172,11 @@ def fit_bhhh(
                         break
                     else:
                         logger.debug(f"-- not yet well converged")
+                        # continue from the prior x, not from the rejected step
+                        proposed = model.loglike2_bhhh(
+                            leave_out=leave_out, keep_only=keep_only, subsample=subsample,
+                        )
+                        proposed_ll = proposed.ll
             else:
                 raise BHHHSimpleStepFailure(f"simple step bhhh failed\ndirection = {str(direction)}")
         else:
-- 
2.43.0


From 8d65afdb1b6b6926e4ce5ad05c29a44d10287cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 22/69] fix: numba BHHH steps were numerical noise for
 over-specified models

---
 larch/numba/optimization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/larch/numba/optimization.py b/larch/numba/optimization.py
index 63442a6..c4d4432 100644
--- a/larch/numba/optimization.py
+++ b/larch/numba/optimization.py
@@ -4,10 +4,14 @@ from ..exceptions import BHHHSimpleStepFailure
 
 def propose_direction(bhhh, dloglike, freedoms):
     direction = np.zeros_like(dloglike)
+    free_bhhh = bhhh[freedoms, :][:, freedoms]
     try:
-        ibhhh = np.linalg.inv(bhhh[freedoms, :][:, freedoms])
+        if free_bhhh.size and np.linalg.cond(free_bhhh) > 1e13:
+            # the inverse of a matrix this close to singular is only numerical noise
+            raise np.linalg.LinAlgError("nearly singular")
+        ibhhh = np.linalg.inv(free_bhhh)
     except np.linalg.LinAlgError:
-        ibhhh = np.linalg.pinv(bhhh[freedoms, :][:, freedoms])
+        ibhhh = np.linalg.pinv(free_bhhh, rcond=1e-12)
     direction1 = np.dot(ibhhh, dloglike[freedoms])
     # direction1 = np.linalg.lstsq(
     #     bhhh[freedoms, :][:, freedoms],
-- 
2.43.0


From 14a3a3c286f5442174941a84830419860a905a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 23/69] fix: numba engine replaced a RuntimeError by an
 UnboundLocalError

---
 larch/numba/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 232849c..12e2e39 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1458,8 +1458,7 @@ class NumbaModel(_BaseModel):
             for n, (a, s) in enumerate(zip(self.work_arrays, out_sig_shapes), start=n+1):
                 s = s.rstrip(" ),")
                 print(f" {arg_names[n]:{arg_name_width}} [{n:2}] {s.strip():9}: {dtp(a)}{shp(a)}")
-            if not isinstance(error, RuntimeError):
-                raise
+            raise
         return result_arrays, penalty
 
     @property
-- 
2.43.0


From bb40b287d80e7ac0e689c160e143062a2a932653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 24/69] fix: Model.load passed the name of the file to pickle
 instead of the file

---
 larch/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 8c58d3a..e160f3a 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -139,7 +139,8 @@ class Model(_Model5c):
 			from ..util.excel import load_metadata
 			return load_metadata(filename, key='_self_')
 		import pickle
-		return pickle.load(filename)
+		with open(filename, 'rb') as f:
+			return pickle.load(f)
 
 	def __init__(
 			self,
-- 
2.43.0


From f89f0d0d475649c36a5426946b30de1ea76388d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 25/69] fix: a model without a dataservice could not be copied

---
 larch/model/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index e160f3a..a9eec08 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -166,7 +166,7 @@ class Model(_Model5c):
 		super().__init__(**kwargs)
 		if model is not None:
 			self.__setstate__(model.__getstate__())
-			if dataservice is None:
+			if dataservice is None and model.dataservice is not None:
 				self.dataservice = model.dataservice
 			self.dataframes = model.dataframes
 		if dataservice is not None:
@@ -755,7 +755,8 @@ class Model(_Model5c):
 		"""
 		import pickle
 		result = pickle.loads(self.dumps())
-		result.dataservice = self.dataservice
+		if self.dataservice is not None:
+			result.dataservice = self.dataservice
 		result._graph = result.graph
 		return result
 
-- 
2.43.0


From eac50beb546c549404accc42e350d7ac11fdd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 26/69] fix: constraints followed positions, not names, of
 parameters after the parameters changed; a rejected constraint stayed in the
 list

---
 larch/model/abstract_model.pyx |  1 +
 larch/model/constraints.py     | 19 +++++++++++++++++--
 larch/model/model.py           |  2 ++
 larch/numba/model.py           |  2 ++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 4149c0e..b59b64e 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -1189,6 +1189,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 
 			# constrained covariance
 			if self.constraints:
+				self.constraints.relink()
 				constraints = list(self.constraints)
 			else:
 				constraints = []
diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 5827e08..893fc06 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -469,12 +469,12 @@ class ParametricConstraintList(MutableSequence):
         if not isinstance(value, ParametricConstraint):
             raise TypeError('items must be of type ParametricConstraint')
         if self.allow_dupes or not self._is_duplicate(value):
+            self._link(value)
             self._cx[key] = value
             try:
                 self._instance.mangle()
             except AttributeError as err:
                 pass
-            self._cx[key].link_model(self._instance)
 
     def __delitem__(self, key):
         del self._cx[key]
@@ -486,18 +486,33 @@ class ParametricConstraintList(MutableSequence):
     def __len__(self):
         return len(self._cx)
 
+    def _link(self, constraint):
+        # parameters of the model's functions may not have been scanned yet
+        self._instance._scan_all_ensure_names()
+        constraint.link_model(self._instance)
+
+    def relink(self):
+        """
+        Find the parameters of each constraint in the current parameter frame.
+
+        The positions of parameters change when parameters are added to
+        or removed from a model.
+        """
+        for i in self._cx:
+            self._link(i)
+
     def insert(self, index, value):
         if isinstance(value, str):
             value = interpret_contraint(value)
         if not isinstance(value, ParametricConstraint):
             raise TypeError('items must be of type ParametricConstraint')
         if self.allow_dupes or not self._is_duplicate(value):
+            self._link(value)
             self._cx.insert(index, value)
             try:
                 self._instance.mangle()
             except AttributeError as err:
                 pass
-            self._cx[index].link_model(self._instance)
 
     def __repr__(self):
         return repr(self._cx)
diff --git a/larch/model/model.py b/larch/model/model.py
index a9eec08..8a4e1e4 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -802,6 +802,7 @@ class Model(_Model5c):
 			return self.dataframes.statistics(graph=self.graph)
 
 	def _get_constraints(self, method):
+		self.constraints.relink()
 		if method.lower() in ('slsqp', 'cobyla'):
 			constraint_dicts = []
 			for c in self.constraints:
@@ -887,6 +888,7 @@ class Model(_Model5c):
 		-------
 		list
 		"""
+		self.constraints.relink()
 		constraints = list(self.constraints)
 		try:
 			constraints.extend(self._get_bounds_constraints())
diff --git a/larch/numba/model.py b/larch/numba/model.py
index 12e2e39..af36708 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1175,6 +1175,7 @@ class NumbaModel(_BaseModel):
             self._rebuild_fixed_arrays()
             self._rebuild_work_arrays()
         if self._constraint_funcs is None:
+            self.constraints.relink()
             self._constraint_funcs = [c.as_soft_penalty() for c in self.constraints]
 
     def _scan_logsums_ensure_names(self):
@@ -1309,6 +1310,7 @@ class NumbaModel(_BaseModel):
             if on_violation != 'raise':
                 return failure_message
             raise ValueError(failure_message)
+        self.constraints.relink()
         for c in self.constraints:
             if c.fun(self.pvals) < 0:
                 failure_message = str(c)
-- 
2.43.0


From 50019eb37188559b160d70912bd56e6446e7dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 27/69] fix: pickling a model removed the dashboard from its
 result and lost its constraints

---
 larch/model/controller.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 3291698..4ac9121 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -103,6 +103,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 		mrer = self._most_recent_estimation_result
 		if mrer is not None and 'dashboard' in mrer:
+			mrer = type(mrer)(mrer)
 			del mrer['dashboard']
 
 		state = dict()
@@ -125,13 +126,14 @@ cdef class Model5c(AbstractChoiceModel):
 		state["_display_order                 ".strip()] = (self._display_order                 )
 		state["_display_order_tail            ".strip()] = (self._display_order_tail            )
 		state["_possible_overspecification    ".strip()] = (self._possible_overspecification    )
-		state["_most_recent_estimation_result ".strip()] = (self._most_recent_estimation_result )
+		state["_most_recent_estimation_result ".strip()] = (mrer                                )
 		state["_cached_loglike_null           ".strip()] = (self._cached_loglike_null           )
 		state["_cached_loglike_nil            ".strip()] = (self._cached_loglike_nil            )
 		state["_cached_loglike_constants_only ".strip()] = (self._cached_loglike_constants_only )
 		state["_cached_loglike_best           ".strip()] = (self._cached_loglike_best           )
 		state["_title                         ".strip()] = (self._title                         )
 		state["_matrixes                      ".strip()] = (self._matrixes                      )
+		state["constraints                    ".strip()] = list(getattr(self, 'constraints', ()))
 
 		state = cloudpickle.dumps(state)
 		state = gzip.compress(state)
@@ -179,6 +181,10 @@ cdef class Model5c(AbstractChoiceModel):
 		(self._cached_loglike_constants_only ) = state["_cached_loglike_constants_only ".strip()]
 		self.n_threads = 0
 		self._prior_frame_values = None
+		if state.get("constraints"):
+			# positions in the parameter frame are restored with the constraints
+			self.constraints = None
+			self.constraints._cx.extend(state["constraints"])
 		# if self._graph is not None:
 		# 	self.graph.set_touch_callback(self.mangle)
 
-- 
2.43.0


From b2efa2a483907a3c06d3f85160a52552dfa3393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:07 +0000
Subject: [PATCH 28/69] fix: constraints that cannot be applied were silently
 left out of an estimation

---
 larch/model/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index ddb06e3..6d82bfe 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -312,7 +312,7 @@ def maximize_loglike(
 
                 try:
                     constraints = model._get_constraints(method)
-                except:
+                except AttributeError:
                     constraints = ()
 
                 args = getattr(model, '_null_slice', (0,-1,1))
-- 
2.43.0


From b1a725b56df4c0a715ca797505bd174464e92903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 29/69] fix: a model whose nesting tree is not defined yet
 could not be copied

---
 larch/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 8a4e1e4..bddc075 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -757,7 +757,8 @@ class Model(_Model5c):
 		result = pickle.loads(self.dumps())
 		if self.dataservice is not None:
 			result.dataservice = self.dataservice
-		result._graph = result.graph
+		if result.graph is not None:
+			result._graph = result.graph
 		return result
 
 	def remove_unused_parameters(self, verbose=True):
-- 
2.43.0


From b65bad4436b1205b71fa7ad1e35756a06101c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 30/69] fix: ratio constraints were turned around by negative
 ratios and failed for a ratio of zero

---
 larch/model/constraints.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 893fc06..a1db21b 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -58,6 +58,13 @@ class RatioBound(ParametricConstraint):
     def __repr__(self):
         return f"larch.RatioBound({self.p_num},{self.p_den},{self.min_ratio},{self.max_ratio})"
 
+    @staticmethod
+    def _ratio_scaling(ratio):
+        # must be positive, it would turn the constraint around otherwise
+        if ratio == 0:
+            return 1.0
+        return max(abs(ratio), 1/abs(ratio))
+
     def link_model(self, model, scale=None):
         if scale is not None:
             self.scale = scale
@@ -66,7 +73,7 @@ class RatioBound(ParametricConstraint):
             self.i_den = model._frame.index.get_loc(self.p_den)
             self.len = len(model._frame)
             if self.min_ratio is not None:
-                scaling = max(self.min_ratio, 1/self.min_ratio) * self.scale
+                scaling = self._ratio_scaling(self.min_ratio) * self.scale
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmin_num = 1 * scaling
@@ -81,7 +88,7 @@ class RatioBound(ParametricConstraint):
                 self.cmin_num = 0
                 self.cmin_den = 0
             if self.max_ratio is not None:
-                scaling = max(self.max_ratio, 1/self.max_ratio) * self.scale
+                scaling = self._ratio_scaling(self.max_ratio) * self.scale
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmax_num = -1 * scaling
-- 
2.43.0


From 9b4553ba00e643d29b5e7ec8cf376cf9989798b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 31/69] fix: a ratio constraint with one bound was always said
 to bind

---
 larch/model/constraints.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index a1db21b..07cee31 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -104,9 +104,13 @@ class RatioBound(ParametricConstraint):
                 self.cmax_den = 0
 
     def _min_fun(self, x):
+        if self.min_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmin_num + x[self.i_den] * self.cmin_den
 
     def _max_fun(self, x):
+        if self.max_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmax_num + x[self.i_den] * self.cmax_den
 
     def fun(self, x):
@@ -151,14 +155,17 @@ class RatioBound(ParametricConstraint):
         cmin_den = self.cmin_den
         cmax_num = self.cmax_num
         cmax_den = self.cmax_den
+        # a bound that is not given is never reached
+        omin = 0.0 if self.min_ratio is not None else np.inf
+        omax = 0.0 if self.max_ratio is not None else np.inf
         scale = self.scale
         @njit([
             float32(float32[:], float32, float32),
             float64(float64[:], float64, float64),
         ])
         def penalty(x, intensity, sharpness=1.0):
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den + omin
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den + omax
             return -softplus(-np.minimum(_min, _max) * scale * intensity, sharpness)
         @njit([
             float32[:](float32[:], float32, float32),
@@ -166,8 +173,8 @@ class RatioBound(ParametricConstraint):
         ])
         def dpenalty(x, intensity, sharpness=1.0):
             j = np.zeros_like(x)
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den + omin
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den + omax
             partial = d_softplus(-np.minimum(_min, _max), sharpness * scale * intensity) * scale * intensity
             if _min < _max:
                 j[i_num] = cmin_num * partial
@@ -182,8 +189,8 @@ class RatioBound(ParametricConstraint):
         ])
         def dpenalty_money(x, intensity):
             j = np.zeros_like(x)
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den + omin
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den + omax
             if np.absolute(_min) < 1e-5:
                 partial = 0.5 * scale * intensity
                 j[i_num] = cmin_num * partial
-- 
2.43.0


From 7269e28860763fd4ce740594ba44c28038829b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 32/69] fix: numba engine could not evaluate a model with a
 fixed bound among its constraints

---
 larch/model/constraints.py | 39 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 07cee31..c927c98 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -389,6 +389,45 @@ class FixedBound(ParametricConstraint):
             self.maximum if self.maximum is not None else np.inf,
         )]
 
+    def as_soft_penalty(self):
+        from numba import njit, float32, float64
+        from ..numba.model import softplus, d_softplus
+        i = self.i
+        minimum = self.minimum if self.minimum is not None else -np.inf
+        maximum = self.maximum if self.maximum is not None else np.inf
+        scale = self.scale
+        @njit([
+            float32(float32[:], float32, float32),
+            float64(float64[:], float64, float64),
+        ])
+        def penalty(x, intensity, sharpness=1.0):
+            slack = np.minimum(x[i] - minimum, maximum - x[i])
+            return -softplus(-slack * scale * intensity, sharpness)
+        @njit([
+            float32[:](float32[:], float32, float32),
+            float64[:](float64[:], float64, float64),
+        ])
+        def dpenalty(x, intensity, sharpness=1.0):
+            j = np.zeros_like(x)
+            low = x[i] - minimum
+            high = maximum - x[i]
+            partial = d_softplus(-np.minimum(low, high), sharpness * scale * intensity) * scale * intensity
+            j[i] = partial if low < high else -partial
+            return j
+        @njit([
+            float32[:](float32[:], float32),
+            float64[:](float64[:], float64),
+        ])
+        def dpenalty_bind(x, intensity):
+            j = np.zeros_like(x)
+            partial = 0.5 * scale * intensity
+            if np.absolute(x[i] - minimum) < 1e-5:
+                j[i] = partial
+            elif np.absolute(maximum - x[i]) < 1e-5:
+                j[i] = -partial
+            return j
+        return penalty, dpenalty, dpenalty_bind
+
     def __eq__(self, other):
         if not isinstance(other, FixedBound):
             return False
-- 
2.43.0


From 9a5d60548980a745f215621c7aa5f1bc3cb57bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 33/69] fix: saved data with normalized weights could not be
 loaded

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index e5dd580..74ef7e0 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1054,7 +1054,7 @@ cdef class DataFrames:
 		caseindex = from_metadata(tb, b'CASEINDEX')
 		raw_wgtnorm = tb.schema.metadata.get(b'WGT_NORM', None)
 		if raw_wgtnorm:
-			wgtnorm = float.fromhex(raw_wgtnorm)
+			wgtnorm = float.fromhex(raw_wgtnorm.decode())
 		else:
 			wgtnorm = 1.0
 
-- 
2.43.0


From 5827be3ed7bdead9259b3ec59d8abcc63cfa988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 34/69] fix: an interrupted or repeated to_feathers left a
 collection mixed from several saves

---
 larch/dataframes.pyx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 74ef7e0..aa62511 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -918,6 +918,7 @@ cdef class DataFrames:
 		import pyarrow as pa
 		import pyarrow.feather as pf
 		import pickle
+		import os
 		try:
 
 			if components is None:
@@ -928,6 +929,15 @@ cdef class DataFrames:
 			if not self.is_computational_ready(True):
 				self.computational = True
 
+			# Files of an earlier collection must not be mixed with this one.
+			# The metadata is removed first and written last, so that a collection
+			# which is not complete cannot be loaded.
+			for ext in sorted(components, key=lambda x: x != 'meta'):
+				stale = str(filename) + ('.metadata' if ext == 'meta' else f'.data_{ext}')
+				if os.path.exists(stale):
+					os.unlink(stale)
+
+			meta_table = None
 			if 'meta' in components:
 				alt_data = {}
 				altcodes = self.alternative_codes()
@@ -946,8 +956,7 @@ cdef class DataFrames:
 				if self.weight_normalization != 1.0:
 					metadata[b'WGT_NORM'] = self.weight_normalization.hex()
 				new_schema = tb.schema.with_metadata(metadata)
-				tb = tb.cast(new_schema)
-				pf.write_feather(tb, str(filename)+".metadata")
+				meta_table = tb.cast(new_schema)
 
 			# core data
 			def segment_out(seg):
@@ -975,6 +984,8 @@ cdef class DataFrames:
 			for seg in components:
 				if seg == 'meta': continue
 				segment_out(seg)
+			if meta_table is not None:
+				pf.write_feather(meta_table, str(filename)+".metadata")
 			# if self.array_co() is not None and 'co' in components:
 			# 	tb = pa.table([self.array_co().T.reshape(-1)], ['data_co'])
 			# 	if 'meta' in components:
-- 
2.43.0


From 1a70e94a5547326f134eafab9c5f4bcfd2b1caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:10 +0000
Subject: [PATCH 35/69] fix: an interrupted gzip_dir left a damaged .gz file,
 on which the next run failed

---
 larch/util/zipdir.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/larch/util/zipdir.py b/larch/util/zipdir.py
index 6a51bdd..4dbbddb 100644
--- a/larch/util/zipdir.py
+++ b/larch/util/zipdir.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python
 import os
+import contextlib
 import zipfile
 import hashlib
 import time
@@ -19,6 +20,21 @@ def _any_dot(s):
 	return False
 
 
+@contextlib.contextmanager
+def _write_complete(filename):
+	# Write to a hidden temporary file, which gets its final name only when it is
+	# complete, so an interrupted run never leaves a damaged file behind.
+	dirname, basename = os.path.split(filename)
+	temp = os.path.join(dirname, f".{basename}.tmp")
+	try:
+		yield temp
+		os.replace(temp, filename)
+	except BaseException:
+		if os.path.exists(temp):
+			os.remove(temp)
+		raise
+
+
 def _zipdir(path, ziph, skip_dots=True, extra_layer=True, log=print):
 	# ziph is zipfile handle
 	keep_dots = not skip_dots
@@ -178,10 +194,11 @@ def gzip_dir(source_dir, patterns=("*.*",), make_hash=True, exclude=".sha256.txt
 		if f[-3:] != '.gz':
 			with open(f, 'rb') as f_in:
 				f_to = os.path.join(destination_dir, f_relative)
-				with gzip.open( f_to + '.gz', 'wb') as f_out:
-					if log is not None:
-						log(f"{f} --> {f_to}.gz")
-					shutil.copyfileobj(f_in, f_out)
+				with _write_complete(f_to + '.gz') as f_tmp:
+					with gzip.open(f_tmp, 'wb') as f_out:
+						if log is not None:
+							log(f"{f} --> {f_to}.gz")
+						shutil.copyfileobj(f_in, f_out)
 			if remove_original:
 				os.remove(f)
 
-- 
2.43.0


From 4818234e57a02d34cb950694c979e9945d0f36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:10 +0000
Subject: [PATCH 36/69] fix: an interrupted zipdir left an archive that looks
 complete but lacks files

---
 larch/util/zipdir.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/larch/util/zipdir.py b/larch/util/zipdir.py
index 4dbbddb..fda702b 100644
--- a/larch/util/zipdir.py
+++ b/larch/util/zipdir.py
@@ -35,14 +35,17 @@ def _write_complete(filename):
 		raise
 
 
-def _zipdir(path, ziph, skip_dots=True, extra_layer=True, log=print):
+def _zipdir(path, ziph, skip_dots=True, extra_layer=True, log=print, exclude=()):
 	# ziph is zipfile handle
+	exclude = set(os.path.realpath(e) for e in exclude)
 	keep_dots = not skip_dots
 	for root, dirs, files in os.walk(path):
 		folder = os.path.basename(root)
 		if keep_dots or not _any_dot(folder):
 			log(f'zipping folder: {folder} in {root}')
 			for file in files:
+				if os.path.realpath(os.path.join(root, file)) in exclude:
+					continue  # the archive does not contain itself
 				if keep_dots or not _any_dot(file):
 					ziph.write(os.path.join(root, file), os.path.relpath(os.path.join(root, file), os.path.join(path,
 																												'..' if extra_layer else '.')))
@@ -72,8 +75,9 @@ def zipdir(source_dir, zip_file_name=None, skip_dots=True, extra_layer=False, lo
 		else:
 			usepath = source_dir
 		zip_file_name = usepath + '.zip'
-	with zipfile.ZipFile(zip_file_name, 'w', zipfile.ZIP_DEFLATED) as zipf:
-		_zipdir(source_dir, zipf, skip_dots=skip_dots, extra_layer=extra_layer, log=log)
+	with _write_complete(zip_file_name) as temp:
+		with zipfile.ZipFile(temp, 'w', zipfile.ZIP_DEFLATED) as zipf:
+			_zipdir(source_dir, zipf, skip_dots=skip_dots, extra_layer=extra_layer, log=log, exclude=(temp, zip_file_name))
 	return zip_file_name
 
 
@@ -91,8 +95,9 @@ def zipmod(module, zip_file_name, skip_dots=True):
 	-------
 
 	"""
-	with zipfile.ZipFile(zip_file_name, 'w', zipfile.ZIP_DEFLATED) as zipf:
-		_zipdir(module.__path__[0], zipf, skip_dots=skip_dots)
+	with _write_complete(zip_file_name) as temp:
+		with zipfile.ZipFile(temp, 'w', zipfile.ZIP_DEFLATED) as zipf:
+			_zipdir(module.__path__[0], zipf, skip_dots=skip_dots, exclude=(temp, zip_file_name))
 
 
 def zipmod_temp(module, skip_dots=True):
-- 
2.43.0


From 59e0e16cceed40d0af98cf5e7083cede3b89cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 37/69] fix: zipdir archived folders inside hidden folders, and
 nothing at the top of '.'

---
 larch/util/zipdir.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/larch/util/zipdir.py b/larch/util/zipdir.py
index fda702b..e45be4a 100644
--- a/larch/util/zipdir.py
+++ b/larch/util/zipdir.py
@@ -41,16 +41,17 @@ def _zipdir(path, ziph, skip_dots=True, extra_layer=True, log=print, exclude=())
 	keep_dots = not skip_dots
 	for root, dirs, files in os.walk(path):
 		folder = os.path.basename(root)
-		if keep_dots or not _any_dot(folder):
-			log(f'zipping folder: {folder} in {root}')
-			for file in files:
-				if os.path.realpath(os.path.join(root, file)) in exclude:
-					continue  # the archive does not contain itself
-				if keep_dots or not _any_dot(file):
-					ziph.write(os.path.join(root, file), os.path.relpath(os.path.join(root, file), os.path.join(path,
-																												'..' if extra_layer else '.')))
-		else:
-			log(f'not zipping folder: {folder} in {root}')
+		if not keep_dots:
+			for d in [d for d in dirs if _any_dot(d)]:
+				log(f'not zipping folder: {d} in {root}')
+				dirs.remove(d)  # nor anything in it
+		log(f'zipping folder: {folder} in {root}')
+		for file in files:
+			if os.path.realpath(os.path.join(root, file)) in exclude:
+				continue  # the archive does not contain itself
+			if keep_dots or not _any_dot(file):
+				ziph.write(os.path.join(root, file), os.path.relpath(os.path.join(root, file), os.path.join(path,
+																											'..' if extra_layer else '.')))
 
 
 def zipdir(source_dir, zip_file_name=None, skip_dots=True, extra_layer=False, log=print):
-- 
2.43.0


From dd2e6841654316c5fabc071da5316d45baad0b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 38/69] fix: verify_hash_file reported a bad hash when a file
 became readable only after a retry, or never

---
 larch/util/zipdir.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/larch/util/zipdir.py b/larch/util/zipdir.py
index e45be4a..475222f 100644
--- a/larch/util/zipdir.py
+++ b/larch/util/zipdir.py
@@ -129,20 +129,18 @@ def make_hash_file(fname):
 
 
 def verify_hash_file(fname, hash_dir=None, max_retries=5):
-	hash256 = hashlib.sha256()
-
 	retries = 0
-	while retries < max_retries:
+	while True:
+		hash256 = hashlib.sha256()
 		try:
 			with open(fname, "rb") as f:
 				for chunk in iter(lambda: f.read(4096), b""):
 					hash256.update(chunk)
 		except PermissionError:
-			import time
-			time.sleep(5)
 			retries += 1
-		except:
-			raise
+			if retries >= max_retries:
+				raise
+			time.sleep(5)
 		else:
 			break
 
-- 
2.43.0


From d530e21beb653aa8d27852cf23da9bd4e919a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 39/69] fix: an Archiver without a log could not zip, and one
 given a trailing slash lost the name

---
 larch/util/zipdir.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larch/util/zipdir.py b/larch/util/zipdir.py
index 475222f..239e989 100644
--- a/larch/util/zipdir.py
+++ b/larch/util/zipdir.py
@@ -39,6 +39,8 @@ def _zipdir(path, ziph, skip_dots=True, extra_layer=True, log=print, exclude=())
 	# ziph is zipfile handle
 	exclude = set(os.path.realpath(e) for e in exclude)
 	keep_dots = not skip_dots
+	if log is None:
+		log = lambda *args: None
 	for root, dirs, files in os.walk(path):
 		folder = os.path.basename(root)
 		if not keep_dots:
@@ -268,7 +270,7 @@ class Archiver():
 
 	def zip_dir(self, source_dir, zip_file_name=None, **kwargs):
 		if zip_file_name is None:
-			zip_file_name = os.path.basename(source_dir)+".zip"
+			zip_file_name = os.path.basename(os.path.normpath(source_dir))+".zip"
 		for arch in self.archive_dirs:
 			zipdir(
 				source_dir=source_dir,
-- 
2.43.0


From 1a5c867098bd3bf1bdb5681569b5502f2866d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 40/69] fix: gzip_dir failed on a folder whose name matches the
 patterns

---
 larch/util/zipdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/util/zipdir.py b/larch/util/zipdir.py
index 239e989..3369a81 100644
--- a/larch/util/zipdir.py
+++ b/larch/util/zipdir.py
@@ -188,7 +188,7 @@ def gzip_dir(source_dir, patterns=("*.*",), make_hash=True, exclude=".sha256.txt
 
 	for pattern in patterns:
 		for f in glob.glob(os.path.join(source_dir, pattern)):
-			if exclude in f:
+			if exclude in f or not os.path.isfile(f):
 				continue  # don't re-gzip the hash files by default
 			targets.add(f)
 
-- 
2.43.0


From 8ecec3507a08c3946455ee698560f1bd4de0134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 41/69] fix: an interrupted Prelearner left a damaged cache
 file, on which every later start failed

---
 larch/prelearning.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/larch/prelearning.py b/larch/prelearning.py
index 02bf1d8..2fae7ce 100644
--- a/larch/prelearning.py
+++ b/larch/prelearning.py
@@ -159,7 +159,15 @@ class Prelearner():
 					clf.fit(training_X, training_Y, **fit)
 				logger.info(f'FITTED {classifier}')
 			if cache_clf_file is not None:
-				joblib.dump(clf, cache_clf_file)
+				# the final name is given to a complete file only, an interrupted
+				# run must not leave a damaged cache to be loaded by the next
+				temp_clf_file = f"{cache_clf_file}.{os.getpid()}.tmp"
+				try:
+					joblib.dump(clf, temp_clf_file)
+					os.replace(temp_clf_file, cache_clf_file)
+				finally:
+					if os.path.exists(temp_clf_file):
+						os.remove(temp_clf_file)
 				logger.info(f'SAVED {cache_clf_file}')
 
 		self.clf = clf
-- 
2.43.0


From 904dcfa71134eda7a6cfcdf8cce2275073209180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 42/69] fix: idce forms of idca data (choices, weights,
 availability, idco) failed or were wrong, so no Prelearner could be trained
 on idca data

---
 larch/dataframes.pyx | 65 ++++++++++++++------------------------------
 larch/prelearning.py | 12 +++++---
 2 files changed, 29 insertions(+), 48 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index aa62511..2a7e419 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1612,16 +1612,21 @@ cdef class DataFrames:
 		"""
 		if self.data_co is None:
 			return None
-		cdef int c,a,v,row,n_vars
-		n_vars = self._array_co.shape[1]
-		arr = numpy.zeros( [len(self.data_ce), n_vars], dtype=l4_float_dtype )
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					for v in range(n_vars):
-						arr[row,v] = self._array_co[c,v]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['weight'])
+		index, c, a = self._idce_rows()
+		return pandas.DataFrame(self.data_co.values[c], index=index, columns=self.data_co.columns)
+
+	def _idce_rows(self):
+		# the index of the data in idce format, with the positions of the case and the alternative of each row
+		if self.data_ce is not None:
+			return self.data_ce.index, self._array_ce_caseindexes, self._array_ce_altindexes
+		if self._data_av is None:
+			raise NotImplementedError('not implemented when data_ce and data_av are None')
+		c, a = numpy.nonzero(self._data_av.values)
+		if self._data_ca is not None:
+			index = self.data_ca_as_ce().index
+		else:
+			index = pandas.MultiIndex.from_arrays([self._data_av.index[c], self._data_av.columns[a]])
+		return index, c, a
 
 	@property
 	def data_ce(self):
@@ -1731,19 +1736,8 @@ cdef class DataFrames:
 		"""
 		if self._data_av is None:
 			return None
-		if self.data_ce is None:
-			if self._data_av is None:
-				raise NotImplementedError('not implemented when data_ce and data_av are None')
-			return self._data_av[self._data_av.stack().astype(bool).values]
-
-		arr = numpy.zeros( [len(self.data_ce)], dtype=numpy.int8 )
-		cdef int c,a,row
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					arr[row] = self._array_av[c,a]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['avail'])
+		index, c, a = self._idce_rows()
+		return pandas.DataFrame(self._data_av.values[c, a], index=index, columns=['avail'])
 
 
 	def data_av_cascade(self, graph):
@@ -1850,19 +1844,8 @@ cdef class DataFrames:
 		"""
 		if self._data_ch is None:
 			return None
-		if self.data_ce is None:
-			if self._data_av is None:
-				raise NotImplementedError('not implemented when data_ce and data_av are None')
-			return self._data_ch[self._data_av.stack().astype(bool).values]
-
-		arr = numpy.zeros( [len(self.data_ce)], dtype=l4_float_dtype )
-		cdef int c,a,row
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					arr[row] = self._array_ch[c,a]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['choice'])
+		index, c, a = self._idce_rows()
+		return pandas.DataFrame(self._data_ch.values[c, a].astype(l4_float_dtype), index=index, columns=['choice'])
 
 	@property
 	def data_wt(self):
@@ -1880,14 +1863,8 @@ cdef class DataFrames:
 	def data_wt_as_ce(self):
 		if self.data_wt is None:
 			return None
-		arr = numpy.zeros( [len(self.data_ce)], dtype=l4_float_dtype )
-		cdef int c,a,row
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					arr[row] = self._array_wt[c]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['weight'])
+		index, c, a = self._idce_rows()
+		return pandas.DataFrame(self.data_wt.values.reshape(-1)[c].astype(l4_float_dtype), index=index, columns=['weight'])
 
 	@property
 	def _data_ca_or_ce(self):
diff --git a/larch/prelearning.py b/larch/prelearning.py
index 2fae7ce..3f8ec78 100644
--- a/larch/prelearning.py
+++ b/larch/prelearning.py
@@ -19,6 +19,10 @@ def user_cache_file(filename, appname=None, appauthor=None, version=None, opinio
 	return os.path.join(d, filename)
 
 
+def _flat(arr):
+	return None if arr is None else arr.reshape(-1)
+
+
 class Prelearner():
 	"""
 	A prelearner for use with Larch.
@@ -105,8 +109,8 @@ class Prelearner():
 					validation_dataframes.data_ca_as_ce(),
 					validation_dataframes.data_co,
 				)
-				validation_Y = validation_dataframes.array_ch_as_ce()
-				validation_W = validation_dataframes.array_wt_as_ce()
+				validation_Y = _flat(validation_dataframes.array_ch_as_ce())
+				validation_W = _flat(validation_dataframes.array_wt_as_ce())
 
 				fit['eval_set'] = fit.get('eval_set', []) + [(validation_X, validation_Y)]
 				if validation_W is not None:
@@ -117,8 +121,8 @@ class Prelearner():
 			dataframes.data_ca_as_ce(),
 			dataframes.data_co,
 		)
-		training_Y = dataframes.array_ch_as_ce()
-		training_W = dataframes.array_wt_as_ce()
+		training_Y = _flat(dataframes.array_ch_as_ce())
+		training_W = _flat(dataframes.array_wt_as_ce())
 		self.output_column = output_name
 
 		if cache_file is not None:
-- 
2.43.0


From 778ea7d65c053953b75bea28a482cceea9db2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 43/69] fix: OMX accepted and ignored a new shape that differs
 in one dimension from its matrices

---
 larch/omx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/omx.py b/larch/omx.py
index ef9f1ae..736dda0 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -177,7 +177,7 @@ class OMX(_omx_base_class):
 	@shape.setter
 	def shape(self, x):
 		if self.data._v_nchildren > 0:
-			if x[0] != self.shape[0] and x[1] != self.shape[1]:
+			if x[0] != self.shape[0] or x[1] != self.shape[1]:
 				raise OMXIncompatibleShape('this omx has shape {!s} but you want to set {!s}'.format(self.shape, x))
 		if self.data._v_nchildren == 0:
 			shp = numpy.empty(2, dtype=int)
-- 
2.43.0


From 913a5e94c6d25d211da08bd0a6e752a00021db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 44/69] fix: OMX.crop failed for files with several tables, and
 with lookups on the second dimension

---
 larch/omx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 736dda0..672f0a1 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -200,14 +200,14 @@ class OMX(_omx_base_class):
 		if shape0 != shape1 and start0 == start1:
 			raise TypeError(
 				'do not automatically crop a square array into a non-square shape, results may be ambiguous')
-		for i in self.data._v_children:
+		for i in list(self.data._v_children):
 			self.add_matrix(i, self.data._v_children[i][:shape0, :shape1], overwrite=True, complevel=complevel,
 			                complib=complib, ignore_shape=True)
-		for i in self.lookup._v_children:
-			if self.lookup[i].shape[0] == start0:
+		for i in list(self.lookup._v_children):
+			if self.lookup._v_children[i].shape[0] == start0:
 				self.add_lookup(i, self.lookup._v_children[i][:shape0], overwrite=True, complevel=complevel,
 				                complib=complib, ignore_shape=True)
-			elif self.lookup[i].shape[1] == start1:
+			elif self.lookup._v_children[i].shape[0] == start1:
 				self.add_lookup(i, self.lookup._v_children[i][:shape1], overwrite=True, complevel=complevel,
 				                complib=complib, ignore_shape=True)
 		shp = numpy.empty(2, dtype=int)
-- 
2.43.0


From c83483e4ad90d1f4ff228db56c7b52b52d6881ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 45/69] fix: a matrix or lookup of a type that cannot be stored
 removed the one it should replace, and changed the shape

---
 larch/omx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 672f0a1..bfb3b1a 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -343,13 +343,14 @@ class OMX(_omx_base_class):
 				if obj.shape != self.shape:
 					raise OMXIncompatibleShape(
 						'this omx has shape {!s} but you want to add {!s}'.format(self.shape, obj.shape))
+		if name in self.data._v_children and not overwrite:
+			raise TypeError('{} exists'.format(name))
+		_tb.Atom.from_dtype(obj.dtype)  # raises an error, before anything is changed, if it cannot be stored
 		if self.data._v_nchildren == 0:
 			shp = numpy.empty(2, dtype=int)
 			shp[0] = obj.shape[0]
 			shp[1] = obj.shape[1]
 			self.root._v_attrs.SHAPE = shp
-		if name in self.data._v_children and not overwrite:
-			raise TypeError('{} exists'.format(name))
 		if name in self.data._v_children:
 			self.remove_node(self.data, name)
 		return self.create_carray(self.data, name, obj=obj,
@@ -394,6 +395,7 @@ class OMX(_omx_base_class):
 			raise OMXIncompatibleShape("don't add lookup to omx with no data and no shape")
 		if name in self.lookup._v_children and not overwrite:
 			raise TypeError('{} exists'.format(name))
+		_tb.Atom.from_dtype(obj.dtype)  # raises an error, before anything is changed, if it cannot be stored
 		if name in self.lookup._v_children:
 			self.remove_node(self.lookup, name)
 		return self.create_carray(self.lookup, name, obj=obj,
-- 
2.43.0


From 0eeab9a19822aefaca75377c19b209383436e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 46/69] fix: OMX.lookup_to_index gave wrong indexes for lookups
 that are not sorted

---
 larch/omx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/omx.py b/larch/omx.py
index bfb3b1a..596ff42 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -483,7 +483,7 @@ class OMX(_omx_base_class):
 		labels = self.lookup._v_children[lookupname][:]
 		if is_sorted_and_unique(labels):
 			return numpy.digitize(arr, labels, right=True)
-		uniq_labels, uniq_indexes = numpy.unique(labels, return_inverse=True)
+		uniq_labels, uniq_indexes = numpy.unique(labels, return_index=True)
 		if len(uniq_labels) != len(labels):
 			raise OMXNonUniqueLookup("lookup '{}' does not have unique labels for each item".format(lookupname))
 		index_malordered = numpy.digitize(arr, uniq_labels, right=True)
-- 
2.43.0


From cbffbb0e3982d8ceaf58deb51db02f729604b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 47/69] fix: OMX.get_rc_dataframe failed for index='rc'

---
 larch/omx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/omx.py b/larch/omx.py
index 596ff42..7702fd4 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -891,7 +891,7 @@ class OMX(_omx_base_class):
 			except AttributeError:
 				pass
 
-		if index is None:
+		if index is None or (isinstance(index, str) and index == 'rc'):
 			try:
 				rows_name = row_indexes.name
 			except AttributeError:
-- 
2.43.0


From f630239002d232a4f4fd1b3a6c0b9fcbc1bdbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 48/69] fix: OMX.import_datatable_as_lookups wrote every chunk
 of the table over the first

---
 larch/omx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/omx.py b/larch/omx.py
index 7702fd4..bf910ee 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -567,6 +567,7 @@ class OMX(_omx_base_class):
 					else:
 						self.lookup._v_children[column_map[col]][start_ix:start_ix + len(chunk)] = chunk[col].values
 					self.lookup._v_children[column_map[col]].flush()
+			start_ix += len(chunk)
 			if log is not None:
 				log("finished processing chunk {} [{}]".format(n, sfr.progress()))
 
-- 
2.43.0


From 75c5d3470a9d856bafc801eea143be781f58a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 49/69] fix: OMX.change_atom_type failed for lookups of files
 that are not square

---
 larch/omx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index bf910ee..f0b288d 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -432,8 +432,8 @@ class OMX(_omx_base_class):
 		if lookup:
 			if name in self.lookup._v_children:
 				orig = self.lookup._v_children[name]
-				neww = self.add_blank_lookup(name + "_temp_atom", atom=atom)
-				for i in range(self.shape[0]):
+				neww = self.add_blank_lookup(name + "_temp_atom", atom=atom, shape=orig.shape[0])
+				for i in range(orig.shape[0]):
 					neww[i] = orig[i]
 				if require_smaller and neww.size_on_disk >= orig.size_on_disk:
 					warnings.warn(
-- 
2.43.0


From 63d074d8f09121d12b6629c9f6e59f449fbf2417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 50/69] fix: OMX.import_omx left the other file open

---
 larch/omx.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index f0b288d..d1ead11 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -972,13 +972,16 @@ class OMX(_omx_base_class):
 
 	def import_omx(self, otherfile, tablenames, rowslicer=None, colslicer=None):
 		oth = OMX(otherfile, mode='r')
-		if tablenames == '*':
-			tablenames = oth.data._v_children.keys()
-		for tab in tablenames:
-			if rowslicer is None and colslicer is None:
-				self.add_matrix(tab, oth.data._v_children[tab][:])
-			else:
-				self.add_matrix(tab, oth.data._v_children[tab][rowslicer, colslicer])
+		try:
+			if tablenames == '*':
+				tablenames = oth.data._v_children.keys()
+			for tab in tablenames:
+				if rowslicer is None and colslicer is None:
+					self.add_matrix(tab, oth.data._v_children[tab][:])
+				else:
+					self.add_matrix(tab, oth.data._v_children[tab][rowslicer, colslicer])
+		finally:
+			oth.close()
 
 	@classmethod
 	def change_cols(cls, newfile, otherfile, datanames, lookuprownames, lookupcolnames, newshape, newslicecols=None,
-- 
2.43.0


From 2fe06916ffaccead007337fb0f3024d6e4d2f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 51/69] fix: reverse lookups of an OMX did not follow changes
 of the lookup

---
 larch/omx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/omx.py b/larch/omx.py
index d1ead11..da485b5 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -398,6 +398,7 @@ class OMX(_omx_base_class):
 		_tb.Atom.from_dtype(obj.dtype)  # raises an error, before anything is changed, if it cannot be stored
 		if name in self.lookup._v_children:
 			self.remove_node(self.lookup, name)
+			self.rlookup.pop(name, None)
 		return self.create_carray(self.lookup, name, obj=obj,
 								  filters=_tb.Filters(complib=complib, complevel=complevel),
 		                          **kwargs)
-- 
2.43.0


From d16cab3d06ba2c7124c6bd1d45eade3da9b01bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 52/69] fix: derivatives of the probability of unavailable
 alternatives in nested models were not a number

---
 larch/model/nl.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 28d692a..c37fa98 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -188,7 +188,12 @@ cdef void _nl_d_probability_from_d_utility(
 
 			mu_parent = mu[parent]
 
-			if mu_parent != 0:
+			if utility[child] == -INFINITY32:
+				# nothing available here, the probability is zero whatever the parameters
+				for param in range(n_params):
+					scratch[param] = 0
+				multiplier = 0
+			elif mu_parent != 0:
 				if param_slot_of_mu[parent] >= 0:
 					scratch[param_slot_of_mu[parent]] += (utility[parent] - utility[child]) / mu_parent
 					if alpha_param_values[edge] != 1.0:
-- 
2.43.0


From da9fef7c005bde27e972f0d1be29b954192106d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 53/69] fix: BHHH matrix of a latent class model mixed up two
 uses of one array

---
 larch/model/nl.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index c37fa98..0a6f58f 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -278,6 +278,7 @@ def d_loglike_from_d_probability(
 		int c = 0
 		int n_alts = probability.shape[1]
 		int n_params = d_probability.shape[2]
+		l4_float_t[:] d_LL_case
 		l4_float_t[:] d_LL_temp
 		l4_float_t[:] d_LL_cum
 		l4_float_t[:,:] bhhh_temp
@@ -288,6 +289,7 @@ def d_loglike_from_d_probability(
 		if probability.shape[0] != array_ch.shape[0] or probability.shape[1] != array_ch.shape[1]:
 			raise ValueError(f"probabilities.shape ~= choices.shape {probability.shape} != {array_ch.shape}")
 
+		d_LL_case = numpy.zeros(n_params, dtype=l4_float_dtype)
 		d_LL_temp = numpy.zeros(n_params, dtype=l4_float_dtype)
 		d_LL_cum = numpy.zeros(n_params, dtype=l4_float_dtype)
 		if return_bhhh:
@@ -307,7 +309,7 @@ def d_loglike_from_d_probability(
 					n_alts,
 					probability[c],
 					d_probability[c],
-					d_LL_temp,
+					d_LL_case,
 					array_ch[c],
 					wt,
 					return_bhhh,
-- 
2.43.0


From 8c4b9a29da2f35556434761bb2a24e6c2e53b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 54/69] fix: weight normalization was rounded to single
 precision

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 2a7e419..346401e 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3012,7 +3012,7 @@ cdef class DataFrames:
 		return self._weight_normalization
 
 	@weight_normalization.setter
-	def weight_normalization(self, float value):
+	def weight_normalization(self, double value):
 		if value <= 0:
 			raise ValueError('weight_normalization must be strictly positive')
 		self._weight_normalization = value
-- 
2.43.0


From e2f74ac1b0226fcb553db9e969da6b45de76eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 55/69] fix: latent class models with weights could not be
 evaluated and lost the weight normalization

---
 larch/model/latentclass.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 619c10c..24ca769 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -128,6 +128,13 @@ class LatentClassModel(AbstractChoiceModel):
 			raise MissingDataError("no dataframes are set")
 		return self._dataframes.total_weight()
 
+	def _case_weights(self):
+		# The weight of each case on its original scale.
+		return (
+			self.dataframes.array_wt(dtype=l4_float_dtype).reshape(-1)
+			* l4_float_dtype(self.dataframes.weight_normalization)
+		)
+
 	def __prep_for_compute(self, x=None):
 		self.unmangle()
 		if x is not None:
@@ -412,7 +419,7 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
+			wt = self._case_weights()[start_case:stop_case_:step_case]
 		else:
 			wt = None
 
@@ -575,7 +582,7 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes is not None and self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
+			wt = self._case_weights()[start_case:stop_case_:step_case]
 		elif getattr(self._k_membership, 'data_as_loaded', None) is not None and 'wt' in self._k_membership.data_as_loaded:
 			wt = self._k_membership.data_as_loaded['wt'].values[start_case:stop_case_:step_case]
 		else:
@@ -648,6 +655,7 @@ class LatentClassModel(AbstractChoiceModel):
 				alt_names=x.alternative_names(),
 				alt_codes=x.alternative_codes(),
 			)
+			k_model.dataframes.weight_normalization = x.weight_normalization
 
 	def mangle(self, *args, **kwargs):
 		self._k_membership.mangle()
-- 
2.43.0


From 319b78604cd796d0aa8bf380b15be3507f3f9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 56/69] fix: latent class models kept reference and best log
 likelihoods of other data

---
 larch/model/latentclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 24ca769..df59046 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -622,6 +622,8 @@ class LatentClassModel(AbstractChoiceModel):
 
 	@dataframes.setter
 	def dataframes(self, x):
+		self.clear_best_loglike()
+		self._clear_reference_loglikes()
 		self._dataframes = x
 
 		if self._dataframes.data_co is None and self._dataframes.data_ce is not None:
-- 
2.43.0


From 1f9e1c758f4f064881a209cbae4daa3a44d82df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 57/69] fix: classes of a latent class model were evaluated
 with stale parameter values, and edits of a class were not noticed

---
 larch/model/latentclass.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index df59046..2dee62b 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -30,6 +30,8 @@ def sync_frames(*models):
 		joined = joined[~joined.index.duplicated(keep='first')]
 		for m in models:
 			m.set_frame(joined)
+			# an equal frame is not replaced, but it must be the same frame for all models
+			m._frame = joined
 
 class LatentClassModel(AbstractChoiceModel):
 	"""
@@ -138,7 +140,9 @@ class LatentClassModel(AbstractChoiceModel):
 	def __prep_for_compute(self, x=None):
 		self.unmangle()
 		if x is not None:
-			self._k_membership.set_values(x)
+			self.set_values(x)
+		# the frame is shared, so any of the models may have changed the values
+		self._frame_values_have_changed()
 
 	def class_membership_probability(self, x=None, start_case=0, stop_case=-1, step_case=1):
 		self.__prep_for_compute(x)
@@ -666,19 +670,18 @@ class LatentClassModel(AbstractChoiceModel):
 		super().mangle(*args, **kwargs)
 
 	def unmangle(self, force=False):
+		models = [self._k_membership, *self._k_models.values()]
 		super().unmangle(force=force)
-		if self._mangled or force:
-			self._k_membership.unmangle(force=force)
-			for m in self._k_models.values():
-				m.unmangle(force=force)
-			sync_frames(self, self._k_membership, *self._k_models.values())
-			self._k_membership.unmangle()
-			for m in self._k_models.values():
+		for m in models:
+			m.unmangle(force=force)
+		# a model that was edited may have a new frame, with more parameters
+		if self._mangled or force or any(m._frame is not self._frame for m in models):
+			sync_frames(self, *models)
+			for m in models:
 				m.unmangle()
 			self._mangled = False
 
 	def load_data(self, dataservice=None, autoscale_weights=True, log_warnings=True):
-		self.unmangle()
 		if dataservice is not None:
 			self._dataservice = dataservice
 		if self._dataservice is not None:
-- 
2.43.0


From adc1af1b0598ec5ec132a7e0985a4e05564e5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 58/69] fix: set_values with names and respect_holdfast=False
 did not set held parameters

---
 larch/model/parameter_frame.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index 8150219..4f07124 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -601,7 +601,7 @@ cdef class ParameterFrame:
 				self._scan_all_ensure_names()
 			for k,v in kwargs.items():
 				if k in self._frame.index:
-					if self._frame.loc[k,'holdfast'] == 0:
+					if self._frame.loc[k,'holdfast'] == 0 or not respect_holdfast:
 						self._frame.loc[k, 'value'] = v
 				else:
 					import warnings
-- 
2.43.0


From 510ef5ee17b71ed486f9b3a2cbc44c364de62276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 59/69] fix: ModelGroup could not give the log likelihoods of
 its parts

---
 larch/model/model_group.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index eaa6931..1172925 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -227,6 +227,7 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 			result = sum(ll2_parts)
 			self._check_if_best(result)
 			return result
+		ll2_parts = [(y if isinstance(y, dict) else dictx(ll=y)) for y in ll2_parts]
 		ll2 = dictx(
 			ll=sum(y.ll for y in ll2_parts),
 		)
-- 
2.43.0


From 4fd657af97fdb357b8cb48e93de71f2dda6042fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 60/69] fix: ModelGroup gradients failed after a model left the
 group

---
 larch/model/model_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index 1172925..6ff05f1 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -292,7 +292,8 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 		dll = ll2_parts[0].dll
 		for y in ll2_parts[1:]:
 			dll = dll.add(y.dll, fill_value=0)
-		dll = dll[self.pf.index]
+		# parameters may remain from models that are no longer in the group
+		dll = dll.reindex(self.pf.index, fill_value=0.0)
 		ll2 = dictx(
 			ll=sum(y.ll for y in ll2_parts),
 			dll=dll,
-- 
2.43.0


From 38298c20488311dd9cceeff5903f0660db4f36fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 61/69] fix: ModelGroup kept best and reference log likelihoods
 of other models or data

---
 larch/model/model_group.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index 6ff05f1..d9619ec 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -43,9 +43,11 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 	def __setitem__(self, i, value):
 		assert isinstance(value, AbstractChoiceModel)
 		self._k_models[i] = value
+		self.mangle()
 
 	def __delitem__(self, x):
 		del self._k_models[x]
+		self.mangle()
 
 	def __len__(self):
 		return len(self._k_models)
@@ -56,6 +58,7 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 	def insert(self, i, value):
 		assert isinstance(value, AbstractChoiceModel)
 		self._k_models.insert(i,value)
+		self.mangle()
 
 	@property
 	def dataframes(self):
@@ -158,6 +161,11 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 
 	def __prep_for_compute(self, x=None):
 		self.unmangle()
+		# a member forgets its best log likelihood when its structure or data change,
+		# then those on record for the group do not apply any more either
+		if any(k._get_cached_loglike_values()['best'] == -np.inf for k in self._k_models):
+			self.clear_best_loglike()
+			self._clear_reference_loglikes()
 		if x is not None:
 			self.set_values(x)
 		vals = self.pf.value.copy()
-- 
2.43.0


From 7faefe080d7af995e8c7a45491edb313085ce34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 62/69] fix: holds of a ModelGroup were ignored by its members,
 and values of held parameters were not passed on

---
 larch/model/model_group.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index d9619ec..640e5c5 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -149,14 +149,13 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 		self._frame_values_have_changed()
 
 	def _frame_values_have_changed(self):
-		vals = self.pf.value.copy()
-		import warnings
-		with warnings.catch_warnings():
-			warnings.simplefilter("ignore", category=ParameterNotInModelWarning)
-			for k in self._k_models:
-				k.set_values(**vals)
-				k._frame = k._frame.copy()
 		for k in self._k_models:
+			common = [i for i in k.pf.index if i in self._frame.index]
+			k._frame = k._frame.copy()
+			# the group also decides which parameters are held
+			for column in ('value', 'holdfast'):
+				k._frame.loc[common, column] = self._frame.loc[common, column]
+			k._check_if_frame_values_changed()
 			k._frame_values_have_changed()
 
 	def __prep_for_compute(self, x=None):
@@ -168,12 +167,8 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 			self._clear_reference_loglikes()
 		if x is not None:
 			self.set_values(x)
-		vals = self.pf.value.copy()
-		import warnings
-		with warnings.catch_warnings():
-			warnings.simplefilter("ignore", category=ParameterNotInModelWarning)
-			for k in self._k_models:
-				k.set_values(**vals)
+		else:
+			self._frame_values_have_changed()
 
 	def load_data(self, dataservice=None, autoscale_weights=True, log_warnings=True):
 		for k in self._k_models:
-- 
2.43.0


From f605708d76cf5baefe71a4f7c57c8284fc991fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 63/69] fix: numba models read wrong columns after new data
 with other columns was attached

---
 larch/numba/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index af36708..fac6771 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -2000,6 +2000,7 @@ class NumbaModel(_BaseModel):
             x.check_data_is_sufficient_for_model(self)
         super().set_dataframes(x, check_sufficiency=False, raw=True)
 
+        self._fixed_arrays = None # positions of columns can differ in the new data
         self.reflow_data_arrays()
         n_cases = x.n_cases
         if self.graph is None:
-- 
2.43.0


From 8e3edce568d082dbca44c0f4ae6008aa31c97ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 64/69] fix: non-blocking rate limiters passed several calls
 per interval, or dead-locked, with concurrent or nested calls

---
 larch/util/rate_limiter.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/larch/util/rate_limiter.py b/larch/util/rate_limiter.py
index 5dc734e..424950d 100644
--- a/larch/util/rate_limiter.py
+++ b/larch/util/rate_limiter.py
@@ -32,23 +32,23 @@ class NonBlockingRateLimiter():
 		self.interval = interval
 		self.next_greenlight = 0
 
+	def _greenlight(self):
+		with self.lock:
+			t = time.monotonic()
+			if t < self.next_greenlight:
+				return False
+			self.next_greenlight = t + self.interval
+			return True
+
 	def __call__(self, fn):
 		@functools.wraps(fn)
 		def decorated(*args, **kwargs):
-			t = time.monotonic()
-			if t >= self.next_greenlight:
-				with self.lock:
-					self.next_greenlight = t + self.interval
-					fn(*args, **kwargs)
+			if self._greenlight():
+				fn(*args, **kwargs)
 		return decorated
 
 	def __bool__(self):
-		t = time.monotonic()
-		if t >= self.next_greenlight:
-			with self.lock:
-				self.next_greenlight = t + self.interval
-				return True
-		return False
+		return self._greenlight()
 
 
 _global_rate_limiters = {}
-- 
2.43.0


From c2779d648d845392b6daa4ba171f74aa0450737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 65/69] fix: GlobalRateLimiter always failed with a NameError

---
 larch/util/rate_limiter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/larch/util/rate_limiter.py b/larch/util/rate_limiter.py
index 424950d..71a6d88 100644
--- a/larch/util/rate_limiter.py
+++ b/larch/util/rate_limiter.py
@@ -52,10 +52,12 @@ class NonBlockingRateLimiter():
 
 
 _global_rate_limiters = {}
+_global_rate_limiters_lock = Lock()
 
 def GlobalRateLimiter(tag, interval=1, wait_now=True):
-	global _global_rate_limiters
-	if tag not in _global_rate_limiters:
-		_global_rate_limiters[tag] = RateLimiter(interval)
+	with _global_rate_limiters_lock:
+		if tag not in _global_rate_limiters:
+			_global_rate_limiters[tag] = BlockingRateLimiter(interval)
+		limiter = _global_rate_limiters[tag]
 	if wait_now:
-		return next(_global_rate_limiters[tag])
+		return next(limiter)
-- 
2.43.0


From 0bdf7171fd637283ac3e98559c9a2e6e025e4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 66/69] fix: Timer gave wrong or negative elapsed times when
 the system clock was adjusted

---
 larch/util/timesize.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/larch/util/timesize.py b/larch/util/timesize.py
index acfe899..3b42e48 100644
--- a/larch/util/timesize.py
+++ b/larch/util/timesize.py
@@ -1,5 +1,5 @@
 import time
-from datetime import datetime
+from datetime import datetime, timedelta
 
 def timesize_single(t):
 	if t<60:
@@ -45,7 +45,9 @@ class Timer:
 
 	def restart(self):
 		self._starttime = datetime.now()
+		self._startclock = time.monotonic()
 		self._stoptime = None
+		self._stopclock = None
 		return self._starttime
 
 	def start(self):
@@ -53,13 +55,15 @@ class Timer:
 
 	def stop(self):
 		self._stoptime = datetime.now()
+		self._stopclock = time.monotonic()
 		return self._stoptime
 
 	def elapsed(self):
-		if self._stoptime:
-			return (self._stoptime - self._starttime)
+		# not from the times of day, as the system clock can be adjusted in the meantime
+		if self._stopclock is not None:
+			return timedelta(seconds=self._stopclock - self._startclock)
 		else:
-			return (datetime.now() - self._starttime)
+			return timedelta(seconds=time.monotonic() - self._startclock)
 
 	def __enter__(self):
 		self.restart()
-- 
2.43.0


From 9c1e12af71cbdd7a7014ebfa547cf9a8e178e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 67/69] fix: timing logs gave wrong or negative times when the
 system clock was adjusted

---
 larch/log/normal.py  | 12 ++++++------
 larch/log/verbose.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/larch/log/normal.py b/larch/log/normal.py
index 8703773..8f5c542 100644
--- a/larch/log/normal.py
+++ b/larch/log/normal.py
@@ -58,15 +58,15 @@ logger = log = log_to_console()
 
 @contextmanager
 def timing_log(label=''):
-	start_time = time.time()
+	start_time = time.monotonic()
 	log.critical(f"<TIME BEGINS> {label}")
 	try:
 		yield
 	except:
-		log.critical(f"<TIME ERROR!> {label} <{timesize_stack(time.time()-start_time)}>")
+		log.critical(f"<TIME ERROR!> {label} <{timesize_stack(time.monotonic()-start_time)}>")
 		raise
 	else:
-		log.critical(f"< TIME ENDS > {label} <{timesize_stack(time.time()-start_time)}>")
+		log.critical(f"< TIME ENDS > {label} <{timesize_stack(time.monotonic()-start_time)}>")
 
 class TimingLog:
 
@@ -81,12 +81,12 @@ class TimingLog:
 		self.current_task = ''
 
 	def __enter__(self):
-		self.start_time = time.time()
+		self.start_time = time.monotonic()
 		self.log.log(self.level, f"<BEGIN> {self.label}")
 		return self
 
 	def __exit__(self, exc_type, exc_value, traceback):
-		now = time.time()
+		now = time.monotonic()
 		if self.split_time is not None:
 			self.log.log(self.level, f"<SPLIT> {self.label} / Final <{timesize_stack(now - self.split_time)}>")
 		if exc_type is None:
@@ -97,7 +97,7 @@ class TimingLog:
 	def split(self, note=''):
 		if self.split_time is None:
 			self.split_time = self.start_time
-		now = time.time()
+		now = time.monotonic()
 		if note:
 			note = " / " + note
 		self.log.log(self.level, f"<SPLIT> {self.label}{note} <{timesize_stack(now - self.split_time)}>")
diff --git a/larch/log/verbose.py b/larch/log/verbose.py
index 53d4341..3b62cdc 100644
--- a/larch/log/verbose.py
+++ b/larch/log/verbose.py
@@ -58,15 +58,15 @@ logger = log = log_to_console()
 
 @contextmanager
 def timing_log(label=''):
-	start_time = time.time()
+	start_time = time.monotonic()
 	log.critical(f"<TIME BEGINS> {label}")
 	try:
 		yield
 	except:
-		log.critical(f"<TIME ERROR!> {label} <{timesize_stack(time.time() - start_time)}>")
+		log.critical(f"<TIME ERROR!> {label} <{timesize_stack(time.monotonic() - start_time)}>")
 		raise
 	else:
-		log.critical(f"< TIME ENDS > {label} <{timesize_stack(time.time() - start_time)}>")
+		log.critical(f"< TIME ENDS > {label} <{timesize_stack(time.monotonic() - start_time)}>")
 
 
 class TimingLog:
@@ -82,12 +82,12 @@ class TimingLog:
 		self.current_task = ''
 
 	def __enter__(self):
-		self.start_time = time.time()
+		self.start_time = time.monotonic()
 		self.log.log(self.level, f"<BEGIN> {self.label}")
 		return self
 
 	def __exit__(self, exc_type, exc_value, traceback):
-		now = time.time()
+		now = time.monotonic()
 		if self.split_time is not None:
 			self.log.log(self.level, f"<SPLIT> {self.label} / Final <{timesize_stack(now - self.split_time)}>")
 		if exc_type is None:
@@ -98,7 +98,7 @@ class TimingLog:
 	def split(self, note=''):
 		if self.split_time is None:
 			self.split_time = self.start_time
-		now = time.time()
+		now = time.monotonic()
 		if note:
 			note = " / " + note
 		self.log.log(self.level, f"<SPLIT> {self.label}{note} <{timesize_stack(now - self.split_time)}>")
-- 
2.43.0


From e692369c46e239110275756309d6115f8d0a9a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 68/69] fix: removing unused parameters failed and lost all
 parameters when there are ratio constraints

---
 larch/model/model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index bddc075..10d03b2 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -772,12 +772,14 @@ class Model(_Model5c):
 		"""
 		self.unmangle(True)
 		old_pf = self.pf.copy()
-		self.pf.drop(self.pf.index, inplace=True)
-		self.unmangle(True)
-		overlay = pandas.merge(self.pf.iloc[:, 0:0], old_pf, left_index=True, right_index=True, how='left')
+		self._frame.drop(self._frame.index, inplace=True)
+		# do not unmangle yet, constraints need the bounds of parameters
+		self._scan_all_ensure_names()
+		overlay = pandas.merge(self._frame.iloc[:, 0:0], old_pf, left_index=True, right_index=True, how='left')
 		for col in overlay.columns:
 			f = ~overlay[col].isna()
-			self.pf.loc[f, col] = overlay.loc[f, col]
+			self._frame.loc[f, col] = overlay.loc[f, col]
+		self.unmangle(True)
 		if verbose:
 			dropped_params = [p for p in old_pf.index if p not in self.pf.index]
 			if len(dropped_params) == 0:
-- 
2.43.0


From a2049bf430ece6dd83624c5e044f5b658a16565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 69/69] fix: numba models evaluated at once in several threads
 could read the arrays of each other

---
 larch/numba/data_arrays.py | 6 ++++--
 larch/numba/model.py       | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/larch/numba/data_arrays.py b/larch/numba/data_arrays.py
index b9e0b59..8509875 100755
--- a/larch/numba/data_arrays.py
+++ b/larch/numba/data_arrays.py
@@ -9,9 +9,11 @@ from ..dataset.dim_names import CASEID as _CASEID, ALTID as _ALTID, CASEALT as _
 
 class _case_slice:
 
+    def __init__(self, parent=None):
+        self.parent = parent
+
     def __get__(self, obj, objtype=None):
-        self.parent = obj
-        return self
+        return _case_slice(obj) # a new one, models in other threads use this too
 
     def __getitem__(self, idx):
         kwds = {}
diff --git a/larch/numba/model.py b/larch/numba/model.py
index fac6771..ee6036b 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -875,9 +875,10 @@ def model_q_ca_slots(data_provider, model, dtype=np.float64):
 
 
 class _case_slice:
+    def __init__(self, parent=None):
+        self.parent = parent
     def __get__(self, obj, objtype=None):
-        self.parent = obj
-        return self
+        return _case_slice(obj) # a new one, models in other threads use this too
     def __getitem__(self, idx):
         return type(self.parent)(**{k: getattr(self.parent, k)[idx] for k in self.parent._fields})
 
-- 
2.43.0

