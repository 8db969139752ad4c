From 8aa88decf3b2ca9a8e4064dd9a2d00a92105004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 01/86] fix: utility() and exputility() evaluate at the given
 parameter values

---
 larch/model/controller.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 1df6002..32cb78a 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -955,7 +955,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 	def exputility(self, x=None, return_dataframe=None):
 		try:
-			arr = self.loglike(persist=PERSIST_EXP_UTILITY).exp_utility
+			arr = self.loglike(x, persist=PERSIST_EXP_UTILITY).exp_utility
 		except KeyError:
 			raise NotImplementedError("exputility is not available for this model structure")
 		if return_dataframe == 'names':
@@ -974,7 +974,7 @@ cdef class Model5c(AbstractChoiceModel):
 			return arr
 
 	def utility(self, x=None, return_dataframe=None):
-		arr = self.loglike(persist=PERSIST_UTILITY).utility
+		arr = self.loglike(x, persist=PERSIST_UTILITY).utility
 		if return_dataframe == 'names':
 			return pandas.DataFrame(
 				data=arr,
-- 
2.43.0


From 831cfb622872a36537529f45c8809253bb26ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 02/86] fix: derivative w.r.t. logsum parameters used in
 several nests, by the root or in networks

---
 larch/model/nl.pyx | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 881309d..6c2d010 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -352,16 +352,11 @@ cdef void _nl_d_utility_upstream_v2(
 		if cond_logprob > -INFINITY32:
 			cond_prob = exp(cond_logprob)
 
-			if child >= n_elemental_alts:
-				if param_slot_of_mu[child] >= 0:
-					dU[child,param_slot_of_mu[child]] += utility[child]
-					dU[child,param_slot_of_mu[child]] /= mu[child]
-
 			if param_slot_of_mu[parent] >= 0:
 				if alpha[e] == 1.0:
-					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child])
+					dU[parent, param_slot_of_mu[parent]] += cond_prob * (utility[parent] - utility[child]) / mu[parent]
 				else:
-					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child] + mu[child]*logalpha[e])
+					dU[parent, param_slot_of_mu[parent]] += cond_prob * (utility[parent] - utility[child] - logalpha[e]) / mu[parent]
 
 			for p in range(n_params):
 				dU[parent, p] += cond_prob * dU[child, p]
-- 
2.43.0


From 1c44f70f6a4c375b46c64e9fcd73f1078f14bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 03/86] fix: derivative of quantity when a parameter appears in
 several terms

---
 larch/dataframes.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 9b7b699..593c30a 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2411,12 +2411,15 @@ cdef class DataFrames:
 							_temp = self._array_ca[c, j, self.model_quantity_ca_data[i]]
 						_temp *= self.model_quantity_ca_param_value[i] * self.model_quantity_ca_param_scale[i]
 						U[j] += _temp
-						if not self.model_quantity_ca_param_holdfast[i]:
-							dU[j,self.model_quantity_ca_param[i]] += _temp * self.model_quantity_scale_param_value
 
 					for i in range(self.model_quantity_ca_param.shape[0]):
 						if not self.model_quantity_ca_param_holdfast[i]:
-							dU[j,self.model_quantity_ca_param[i]] /= U[j]
+							if row >= 0:
+								_temp = self._array_ce[row, self.model_quantity_ca_data[i]]
+							else:
+								_temp = self._array_ca[c, j, self.model_quantity_ca_data[i]]
+							_temp *= self.model_quantity_ca_param_value[i] * self.model_quantity_ca_param_scale[i]
+							dU[j,self.model_quantity_ca_param[i]] += _temp * self.model_quantity_scale_param_value / U[j]
 
 					if Q is not None:
 						Q[j] = U[j]
-- 
2.43.0


From 6c80199cf1dcb98da758f0ffa8ce5156c479affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 04/86] fix: casewise log likelihoods include the weight
 normalization, as their total does

---
 larch/model/mnl.pyx | 2 +-
 larch/model/nl.pyx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index d887839..b07fe8b 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -658,7 +658,7 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 		if persist & PERSIST_UTILITY:
 			result.utility=raw_utility.base
 		if persist & PERSIST_LOGLIKE_CASEWISE:
-			result.ll_casewise=LL_case.base
+			result.ll_casewise=LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_EXP_UTILITY:
 			result.exp_utility=exp_utility.base
 		if persist & PERSIST_PROBABILITY:
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 6c2d010..dca5e57 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -691,7 +691,7 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 			result.bhhh = bhhh
 
 		if persist & PERSIST_LOGLIKE_CASEWISE:
-			result.ll_casewise = LL_case.base
+			result.ll_casewise = LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_UTILITY:
 			result.utility = raw_utility.base
 		if persist & PERSIST_D_UTILITY:
-- 
2.43.0


From 3dc5cf00612a297c0622ec90d7bcf3934a5de6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 05/86] fix: total log likelihood does not depend on the order
 threads finish

---
 larch/model/mnl.pyx | 4 +++-
 larch/model/nl.pyx  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index b07fe8b..e14cb3b 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -622,7 +622,6 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 					probability[store_number_P], # output
 					dfs._array_ch[c,:],
 				) * weight
-				ll += ll_temp
 				LL_case[store_number_LLc] += ll_temp
 
 				if return_dll:
@@ -644,6 +643,9 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 
 		if probability_only:
 			ll = numpy.nan
+		else:
+			# the threads finish in any order, so they are totaled here instead of by a reduction
+			ll = LL_case.base.sum()
 
 		ll *= dfs._weight_normalization
 		if return_dll:
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index dca5e57..f492d6b 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -613,7 +613,6 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 					dfs._array_ch[c,:],                       # input [n_alts]
 				) * weight
 				LL_case[store_number_LLc] += ll_temp
-				ll += ll_temp
 
 				if return_dll:
 					_nl_d_utility_upstream_v2(
@@ -670,6 +669,9 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 
 		if probability_only:
 			ll = numpy.nan
+		else:
+			# the threads finish in any order, so they are totaled here instead of by a reduction
+			ll = LL_case.base.sum()
 
 		ll *= dfs._weight_normalization
 		if return_dll:
-- 
2.43.0


From 8308e1219ec1fb78134a0b69d00493db053936f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 06/86] fix: removing data or params from a utility function is
 noticed by the model

---
 larch/model/linear.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 60fde86..b1bf724 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -878,6 +878,7 @@ cdef class LinearFunction_C:
 			i -= 1
 			if self._func[i].data == data:
 				del self._func[i]
+		_try_mangle(self._instance)
 		return self
 
 	def remove_param(self, param):
@@ -900,6 +901,7 @@ cdef class LinearFunction_C:
 			i -= 1
 			if self._func[i].param == param:
 				del self._func[i]
+		_try_mangle(self._instance)
 		return self
 
 	def __len__(self):
-- 
2.43.0


From 98aca1898541a5853e20c35580731a410e2a924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 07/86] fix: a quantity_scale without any quantity terms is not
 looked up

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 593c30a..f70cff5 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2131,7 +2131,7 @@ cdef class DataFrames:
 					self.model_quantity_ca_param[n] = model._frame.index.get_loc(str(i.param))
 					self.model_quantity_ca_data [n] = self._data_ca_or_ce.columns.get_loc(str(i.data))
 					self.model_quantity_ca_param_scale[n] = i.scale
-				if model._quantity_scale is not None:
+				if model._quantity_scale is not None and len_model_utility_ca > 0:
 					self.model_quantity_scale_param = model._frame.index.get_loc(str(model._quantity_scale))
 				else:
 					self.model_quantity_scale_param = -1
-- 
2.43.0


From 14aadd7b92641510d31769e8c6374b51aa026ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 08/86] fix: make_dataframes does not share weights and choices
 with the parent

---
 larch/dataframes.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index f70cff5..d5065a6 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3446,6 +3446,12 @@ cdef class DataFrames:
 		else:
 			df_av = None
 
+		# the scaling of weights, which is done in-place, must not reach back to this DataFrames
+		if df_ch is not None and df_ch is self._data_ch:
+			df_ch = df_ch.copy()
+		if df_wt is not None and df_wt is self._data_wt:
+			df_wt = df_wt.copy()
+
 		result = DataFrames(
 			co=df_co,
 			# ce=df_ca, # dynamically set below
-- 
2.43.0


From 783c68ae263bb8808b946139529d3ab3cfa63553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 09/86] fix: edits to the nesting graph are noticed by the
 model

---
 larch/model/controller.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 32cb78a..d855cc5 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -1270,11 +1270,19 @@ cdef class Model5c(AbstractChoiceModel):
 			except ValueError:
 				import warnings
 				warnings.warn('cannot initialize graph, must define dataframes, dataservice, or give alternative_codes explicitly')
+		if self._graph is not None:
+			# changes in the graph need to be known by the model
+			self._graph._instance = self
 		return self._graph
 
 	@graph.setter
 	def graph(self, x):
+		was_mnl = self.is_mnl()
 		self._graph = x
+		if x is not None:
+			x._instance = self
+		if not (was_mnl and self.is_mnl()):
+			self.mangle()
 
 	def initialize_graph(self, dataframes=None, alternative_codes=None, alternative_names=None, root_id=0):
 		"""
-- 
2.43.0


From 027a273e8f41ffb7b342c852ec74ad5b7b454406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 10/86] fix: cached null, nil, constants-only and best log
 likelihoods are of the current model and data

---
 larch/model/abstract_model.pyx |  7 +++++++
 larch/model/controller.pyx     | 12 +++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 4985b13..591830b 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -55,6 +55,13 @@ cdef class AbstractChoiceModel(ParameterFrame):
 			del self._frame['best']
 		self._cached_loglike_best = -np.inf
 
+	def set_value(self, name, value=None, **kwargs):
+		super().set_value(name, value, **kwargs)
+		name = str(name)
+		if 'nullvalue' in kwargs or 'holdfast' in kwargs or self._frame.loc[name, 'holdfast']:
+			# the log likelihood at null values is not what it was
+			self._cached_loglike_null = 0
+
 	def loglike2(
 			self,
 			x=None,
diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index d855cc5..7deac4b 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -261,6 +261,9 @@ cdef class Model5c(AbstractChoiceModel):
 			self._n_threads = int(value)
 
 	def mangle(self, *args, **kwargs):
+		if self._dataframes is not None:
+			# the model structure may be changing, which changes the null log likelihood
+			self._cached_loglike_null = 0
 		super().mangle(*args, **kwargs)
 
 	def unmangle(self, force=False):
@@ -519,6 +522,9 @@ cdef class Model5c(AbstractChoiceModel):
 
 		x.computational = True
 		self.clear_best_loglike()
+		self._cached_loglike_null = 0
+		self._cached_loglike_nil = 0
+		self._cached_loglike_constants_only = 0
 
 		#self.unmangle() # don't do a full unmangle here, it will fail if the old data is incomplete
 		if self._mangled:
@@ -730,7 +736,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		# if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 		# 	y['dll'] = pandas.Series(y['dll'], index=self.frame.index, )
@@ -796,7 +802,7 @@ cdef class Model5c(AbstractChoiceModel):
 			keep_only=keep_only,
 			subsample=subsample,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 			y['dll'] = pandas.Series(y['dll'], index=self._frame.index, )
@@ -916,7 +922,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		if probability_only:
 			return y.probability
-- 
2.43.0


From cdff4c2966d9cfd9231258841b7d56a6cb2bdad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 11/86] fix: NestingTree.copy keeps the root node and order of
 elementals, a suggested order is used at once

---
 larch/model/tree.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 0278557..84682a7 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -94,6 +94,18 @@ class NestingTree(nx.DiGraph):
 
     def suggest_elemental_order(self, order):
         self._suggested_elemental_order = tuple(j for j in order if j in self.nodes)
+        self._clear_caches()
+
+    def copy(self, as_view=False):
+        """
+        Make a copy of this NestingTree.
+
+        The copy has the same root node and suggested order of elemental
+        alternatives as the original.
+        """
+        if as_view:
+            return super().copy(as_view=True)
+        return self.__class__(self)
 
     @property
     def root_id(self):
-- 
2.43.0


From e34aa449ecf491e0e9d2af511a47137387a663ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 12/86] fix: editing edges of a NestingTree keeps it rooted and
 its cached views fresh

---
 larch/model/tree.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 84682a7..80dd6a7 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -122,7 +122,8 @@ class NestingTree(nx.DiGraph):
         if self._root_id not in self.nodes:
             self.add_node(self._root_id, name="_root_", root=True)
         for t, a in zip(top_nests, top_attrs):
-            self.add_edge(self._root_id, t, **a, _clear_caches=False)
+            if t != self._root_id:
+                self.add_edge(self._root_id, t, **a, _clear_caches=False)
         self._clear_caches()
 
     def _clear_caches(self):
@@ -173,9 +174,29 @@ class NestingTree(nx.DiGraph):
                     drops.append([u_, v_])
             for d in drops:
                 super().remove_edge(*d)
+        result = super().add_edge(int(u), int(v), implied=implied, **kwarg)
+        if u != self._root_id and self.in_degree(u) == 0:
+            # a new upstream node needs to be connected to the root node
+            super().add_edge(self._root_id, int(u), implied=True)
         if _clear_caches:
             self._clear_caches()
-        return super().add_edge(int(u), int(v), implied=implied, **kwarg)
+        return result
+
+    def add_nodes_from(self, *arg, **kwarg):
+        super().add_nodes_from(*arg, **kwarg)
+        self._clear_caches()
+
+    def add_edges_from(self, *arg, **kwarg):
+        super().add_edges_from(*arg, **kwarg)
+        self._clear_caches()
+
+    def remove_nodes_from(self, *arg, **kwarg):
+        super().remove_nodes_from(*arg, **kwarg)
+        self._clear_caches()
+
+    def remove_edges_from(self, *arg, **kwarg):
+        super().remove_edges_from(*arg, **kwarg)
+        self._clear_caches()
 
     def _remove_edge_no_implied(self, u, v, *arg, **kwarg):
         result = super().remove_edge(u, v)
-- 
2.43.0


From 521901d7edd97a2f5d0a0803c990011a88fdf9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 13/86] fix: NestingTree.elementals when a node of the
 suggested order was removed

---
 larch/model/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 80dd6a7..a76e140 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -439,7 +439,7 @@ class NestingTree(nx.DiGraph):
         result = []
         found = set()
         for e in self._suggested_elemental_order:
-            if self.out_degree(e) == 0:
+            if e in self.nodes and self.out_degree(e) == 0:
                 result.append(e)
                 found.add(e)
         for e in sorted(self.__elementals_iter()):
-- 
2.43.0


From 2b3a2cf7717920246f77e170766332908f53ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 14/86] fix: NestingTree.subgraph_from uses the given node as
 root

---
 larch/model/tree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index a76e140..cc01dfb 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -891,7 +891,13 @@ class NestingTree(nx.DiGraph):
             if i not in found:
                 found.add(i)
                 Q.extend(self.successors(i))
-        return NestingTree(self.subgraph(found), root_id=node)
+        return NestingTree(
+            nx.DiGraph(self.subgraph(found)),
+            root_id=node,
+            suggested_elemental_order=tuple(
+                j for j in self._suggested_elemental_order if j in found
+            ),
+        )
 
     def stats_summarize(self):
         print("Graph Stats")
-- 
2.43.0


From 626176ea69e2aab4209b07623cdc9a254f55bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 15/86] fix: get_value of a parameter whose term is not scanned
 yet

---
 larch/model/parameter_frame.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index 8150219..c26a903 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -464,6 +464,9 @@ cdef class ParameterFrame:
 			return default
 		if isinstance(name, dict):
 			return {k:self.get_value(v) for k,v in name.items()}
+		if self._mangled and isinstance(name, str) and name not in self._frame.index:
+			# the name may belong to a part of the model that is not scanned yet
+			self._scan_all_ensure_names()
 		try:
 			if isinstance(name, (ParameterRef_C, ParameterOp)):
 				return name.value(self)
-- 
2.43.0


From de6b95b505a84b98c25ac7c803a6f473744ac64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 16/86] fix: set_values uses the current parameters, and
 respect_holdfast=False applies to named values

---
 larch/model/parameter_frame.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index c26a903..eb2c18f 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -568,6 +568,8 @@ cdef class ParameterFrame:
 			the `pf` parameters DataFrame.
 		"""
 
+		if self._mangled:
+			self._scan_all_ensure_names()
 		if isinstance(values, str):
 			if values.lower() == 'null':
 				values = self._frame.loc[:,'nullvalue'].values
@@ -600,11 +602,9 @@ cdef class ParameterFrame:
 					raise ValueError(f"cannot set NaN values for parameters\n{loading_values}")
 				self._frame.loc[free_parameters, 'value'] = numpy.asanyarray(values)[free_parameters]
 		if len(kwargs):
-			if self._mangled:
-				self._scan_all_ensure_names()
 			for k,v in kwargs.items():
 				if k in self._frame.index:
-					if self._frame.loc[k,'holdfast'] == 0:
+					if not respect_holdfast or self._frame.loc[k,'holdfast'] == 0:
 						self._frame.loc[k, 'value'] = v
 				else:
 					import warnings
-- 
2.43.0


From b7572fb125239b3b58aeb05e6c1113f1666afee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 17/86] fix: RatioBound with one limit, or with a zero or
 negative ratio

---
 larch/model/constraints.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 5827e08..7900662 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -66,7 +66,7 @@ class RatioBound(ParametricConstraint):
             self.i_den = model._frame.index.get_loc(self.p_den)
             self.len = len(model._frame)
             if self.min_ratio is not None:
-                scaling = max(self.min_ratio, 1/self.min_ratio) * self.scale
+                scaling = self._ratio_scaling(self.min_ratio)
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmin_num = 1 * scaling
@@ -81,7 +81,7 @@ class RatioBound(ParametricConstraint):
                 self.cmin_num = 0
                 self.cmin_den = 0
             if self.max_ratio is not None:
-                scaling = max(self.max_ratio, 1/self.max_ratio) * self.scale
+                scaling = self._ratio_scaling(self.max_ratio)
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmax_num = -1 * scaling
@@ -96,10 +96,19 @@ class RatioBound(ParametricConstraint):
                 self.cmax_num = 0
                 self.cmax_den = 0
 
+    def _ratio_scaling(self, ratio):
+        if ratio == 0:
+            return self.scale
+        return max(abs(ratio), 1/abs(ratio)) * self.scale
+
     def _min_fun(self, x):
+        if self.min_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmin_num + x[self.i_den] * self.cmin_den
 
     def _max_fun(self, x):
+        if self.max_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmax_num + x[self.i_den] * self.cmax_den
 
     def fun(self, x):
-- 
2.43.0


From 28705abcdbe84770888e3a9de7c916387c6d14ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 18/86] fix: constraints follow their parameters when the
 parameter frame changes

---
 larch/model/constraints.py      | 25 ++++++++++++++++++++++---
 larch/model/parameter_frame.pyx |  4 ++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 7900662..375b5d0 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -450,7 +450,7 @@ class ParametricConstraintList(MutableSequence):
         except AttributeError as err:
             pass
         for i in newself._cx:
-            i.link_model(newself._instance)
+            newself._link(i)
 
     def __delete__(self, instance):
 
@@ -483,7 +483,7 @@ class ParametricConstraintList(MutableSequence):
                 self._instance.mangle()
             except AttributeError as err:
                 pass
-            self._cx[key].link_model(self._instance)
+            self._link(value)
 
     def __delitem__(self, key):
         del self._cx[key]
@@ -506,7 +506,26 @@ class ParametricConstraintList(MutableSequence):
                 self._instance.mangle()
             except AttributeError as err:
                 pass
-            self._cx[index].link_model(self._instance)
+            self._link(value)
+
+    def _link(self, value):
+        # link one constraint, after all names of the model are in its frame
+        if getattr(self._instance, '_frame', None) is None:
+            # the model is not initialized yet, the first scan of names will link
+            return
+        self._instance._scan_all_ensure_names()
+        value.link_model(self._instance)
+
+    def relink(self):
+        """Update all constraints for the current positions of parameters."""
+        if getattr(self, '_instance', None) is None:
+            return
+        for i in self._cx:
+            try:
+                i.link_model(self._instance)
+            except (KeyError, ValueError):
+                # a parameter is not there, or its bounds do not allow a link (yet)
+                pass
 
     def __repr__(self):
         return repr(self._cx)
diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index eb2c18f..4f35264 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -116,6 +116,10 @@ cdef class ParameterFrame:
 
 	def _scan_all_ensure_names(self):
 		self._frame.sort_index(inplace=True)
+		# parameters may have moved, constraints must follow them
+		relink = getattr(getattr(self, 'constraints', None), 'relink', None)
+		if relink is not None:
+			relink()
 
 	@property
 	def title(self):
-- 
2.43.0


From 322e13f936ea121e1ec186f97e5a42afb7f75a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 19/86] fix: text of a constraint with a parameter name that
 looks like part of a number

---
 larch/model/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 375b5d0..7ba70d5 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -557,7 +557,7 @@ def asfloat(x):
     return float(x)
 
 def interpret_contraint(c):
-    numbr = r"\s*([-+]?\d*\.?\d*[eE]?[-+]?\d*|\d+\/\d+)\s*"
+    numbr = r"\s*([-+]?\d+\/\d+|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)\s*"
     token = r"\s*([\w#:\*&^%\$!@]+)\s*"
 
     n_2w = f"^{numbr}(<=|<){token}(<=|<){numbr}$"
-- 
2.43.0


From 8118e705a9a4e63adeed102af41952d75b31ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 20/86] fix: zero minus a parameter is its negative

---
 larch/model/linear.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index b1bf724..983060b 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -118,7 +118,7 @@ cdef class ParameterRef_C(UnicodeRef_C):
 				return ParameterSubtract(self, other)
 		elif isinstance(other, ParameterRef_C):
 			if self == 0:
-				return other
+				return LinearComponent_C(param=str(other), data="1", scale=-1)
 			if isinstance(self, (LinearComponent_C, LinearFunction_C)):
 				return self - LinearComponent_C(param=str(other), data="1")
 			if isinstance(self, _Number):
-- 
2.43.0


From e9b9e80c1475da7a3a355f19ebaf6d78bbca3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 21/86] fix: parameter times a scaled parameter

---
 larch/model/linear.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 983060b..fbc065c 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -146,7 +146,7 @@ cdef class ParameterRef_C(UnicodeRef_C):
 				if other.param == _null_:
 					return LinearComponent_C(param=str(self), data=str(other.data), scale=other.scale)
 				from .linear_math import ParameterMultiply
-				return ParameterMultiply(self, other)
+				return ParameterMultiply(self, other.as_pmath())
 		elif isinstance(other, ParameterRef_C):
 			if isinstance(self, DataRef_C):
 				return LinearComponent_C(param=str(other), data=str(self))
-- 
2.43.0


From 90462681fb9f4b7b24dfce6bbd03f535ad1af4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 22/86] fix: adding a scaled parameter to a number

---
 larch/model/linear.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index fbc065c..99bd715 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -501,7 +501,7 @@ cdef class LinearComponent_C:
 				return LinearFunction_C([*self, ]) + other
 			else:
 				try:
-					return other + self.as_pmath()
+					return self + other.as_pmath()
 				except NotImplementedError:
 					pass
 		raise NotImplementedError(f"{_what_is(self)} + {_what_is(other)}")
@@ -523,6 +523,14 @@ cdef class LinearComponent_C:
 					return self.as_pmath() - other
 				except NotImplementedError:
 					pass
+		elif isinstance(other, LinearComponent_C):
+			if isinstance(self, _Number):
+				if self == 0:
+					return -other
+				try:
+					return self - other.as_pmath()
+				except NotImplementedError:
+					pass
 		raise NotImplementedError(f"{_what_is(self)} + {_what_is(other)}")
 
 	def __mul__(self, other):
-- 
2.43.0


From c623238fb56936473fe0e624239eec6b40d6c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 23/86] fix: subtracting data from a linear component

---
 larch/model/linear.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 99bd715..d4442e0 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -516,7 +516,7 @@ cdef class LinearComponent_C:
 				return LinearFunction_C([self, *(-other)])
 			elif isinstance(other, ParameterRef_C):
 				return LinearFunction_C([self, -LinearComponent_C(param=str(other))])
-			elif isinstance(other, ParameterRef_C):
+			elif isinstance(other, DataRef_C):
 				return LinearFunction_C([self, -LinearComponent_C(param=_null_, data=str(other))])
 			else:
 				try:
-- 
2.43.0


From 962ce728739e83e87adb4cac137578b3899b9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 24/86] fix: text of parameter math keeps the grouping of right
 operands

---
 larch/model/linear_math.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/larch/model/linear_math.py b/larch/model/linear_math.py
index a7cb71d..e1052f8 100644
--- a/larch/model/linear_math.py
+++ b/larch/model/linear_math.py
@@ -19,9 +19,11 @@ _precedence = {
 	'**': 13,
 }
 
-def _parenthize_repr(obj, local_precedence):
+def _parenthize_repr(obj, local_precedence, right=False):
 	obj_precedence = getattr(obj, '_precedence', 0)
-	if obj_precedence < local_precedence:
+	# operators group from left to right, so a right operand that uses
+	# an operator of the same precedence needs parentheses
+	if obj_precedence < local_precedence or (right and obj_precedence == local_precedence):
 		return f"({repr(obj)})"
 	else:
 		return repr(obj)
@@ -177,14 +179,14 @@ class _ParameterBinaryOp(_ParameterOp):
 		return "{} {} {}".format(
 			_parenthize_repr(self._left, self._precedence),
 			self._op,
-			_parenthize_repr(self._right, self._precedence),
+			_parenthize_repr(self._right, self._precedence, right=True),
 		)
 
 	def __str__(self):
 		return "{} {} {}".format(
 			_parenthize_repr(self._left, self._precedence),
 			self._op,
-			_parenthize_repr(self._right, self._precedence),
+			_parenthize_repr(self._right, self._precedence, right=True),
 		)
 
 
-- 
2.43.0


From af46d346f3d0a5d13b3aedef0745f4750122b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 25/86] fix: computing a parameter expression leaves the values
 given alone

---
 larch/model/linear_math.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/larch/model/linear_math.py b/larch/model/linear_math.py
index e1052f8..1eab55f 100644
--- a/larch/model/linear_math.py
+++ b/larch/model/linear_math.py
@@ -200,9 +200,9 @@ class ParameterAdd(_ParameterBinaryOp):
 		else:
 			x = self._left
 		if isinstance(self._right, (ParameterRef_C, _ParameterOp)):
-			x += self._right.value(*args)
+			x = x + self._right.value(*args)
 		else:
-			x += self._right
+			x = x + self._right
 		return x
 
 
@@ -216,9 +216,9 @@ class ParameterMultiply(_ParameterBinaryOp):
 		else:
 			x = self._left
 		if isinstance(self._right, (ParameterRef_C, _ParameterOp)):
-			x *= self._right.value(*args)
+			x = x * self._right.value(*args)
 		else:
-			x *= self._right
+			x = x * self._right
 		return x
 
 
@@ -232,9 +232,9 @@ class ParameterSubtract(_ParameterBinaryOp):
 		else:
 			x = self._left
 		if isinstance(self._right, (ParameterRef_C, _ParameterOp)):
-			x -= self._right.value(*args)
+			x = x - self._right.value(*args)
 		else:
-			x -= self._right
+			x = x - self._right
 		return x
 
 
@@ -248,9 +248,9 @@ class ParameterDivide(_ParameterBinaryOp):
 		else:
 			x = self._left
 		if isinstance(self._right, (ParameterRef_C, _ParameterOp)):
-			x /= self._right.value(*args)
+			x = x / self._right.value(*args)
 		else:
-			x /= self._right
+			x = x / self._right
 		return x
 
 
-- 
2.43.0


From 6ef478b466bb93bd8d46dabfd39f42b1c3865aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 26/86] fix: copies and pickles of references keep the name

---
 larch/model/linear.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index d4442e0..af31902 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -53,6 +53,14 @@ cdef class Ref_Gen:
 		return self._kind(str(arg))
 
 
+def _rebuild_ref(cls, name, formatting=None):
+	# Copying or unpickling a reference keeps its name (and format).
+	ref = cls(name)
+	if formatting is not None:
+		ref.set_fmt(formatting)
+	return ref
+
+
 P = Ref_Gen(ParameterRef_C)
 X = Ref_Gen(DataRef_C)
 
@@ -63,6 +71,9 @@ cdef class ParameterRef_C(UnicodeRef_C):
 	def __init__(self, *args):
 		self._formatting = None
 
+	def __reduce__(self):
+		return _rebuild_ref, (self.__class__, str(self), self._formatting)
+
 	def set_fmt(self, str formatting):
 		self._formatting = formatting
 		return self
@@ -256,6 +267,9 @@ cdef class ParameterRef_C(UnicodeRef_C):
 
 cdef class DataRef_C(UnicodeRef_C):
 
+	def __reduce__(self):
+		return _rebuild_ref, (self.__class__, str(self))
+
 	def __repr__(self):
 		if _re.match("[_A-Za-z][_a-zA-Z0-9]*$", self) and not _keyword.iskeyword(self):
 			return "{}.{}".format(_DataRef_repr_txt, self)
-- 
2.43.0


From f67860202cca0a60a133244b5852daf4c94eef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 27/86] fix: adding zero to a linear function gives a new
 function

---
 larch/model/linear.pyx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index af31902..85cde5c 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -947,7 +947,7 @@ cdef class LinearFunction_C:
 	def __add__(self, other):
 		if isinstance(self, LinearFunction_C):
 			if other == () or other == 0:
-				return self
+				return self.copy()
 			if isinstance(other, LinearFunction_C):
 				return self.__class__([*list(self), *list(other)])
 			if isinstance(other, ParameterRef_C):
@@ -965,7 +965,7 @@ cdef class LinearFunction_C:
 					pass
 		if isinstance(other, LinearFunction_C):
 			if self == () or self == 0:
-				return other
+				return other.copy()
 			from .linear_math import _ParameterOp, ParameterAdd
 			if isinstance(self, (_ParameterOp, _Number)):
 				try:
@@ -989,7 +989,7 @@ cdef class LinearFunction_C:
 		return self
 
 	def __pos__(self):
-		return self
+		return self.copy()
 
 	def __neg__(self):
 		return self.__class__(-i for i in self)
@@ -997,7 +997,7 @@ cdef class LinearFunction_C:
 	def __sub__(self, other):
 		if isinstance(self, LinearFunction_C):
 			if other == () or other == 0:
-				return self
+				return self.copy()
 			if isinstance(other, LinearFunction_C):
 				return self.__class__([*list(self), *list(-other)])
 			if isinstance(other, ParameterRef_C):
@@ -1031,7 +1031,7 @@ cdef class LinearFunction_C:
 		if isinstance(self, LinearFunction_C) and isinstance(other, (ParameterRef_C, _ParameterOp)):
 			if isinstance(other, ParameterRef_C):
 				if other == _null_:
-					return self
+					return self.copy()
 				trial = LinearFunction_C()
 				for component in self:
 					if component.param == _null_:
@@ -1056,7 +1056,7 @@ cdef class LinearFunction_C:
 		if isinstance(other, LinearFunction_C) and isinstance(self, (ParameterRef_C, _ParameterOp)):
 			if isinstance(self, ParameterRef_C):
 				if self == _null_:
-					return other
+					return other.copy()
 				trial = LinearFunction_C()
 				for component in other:
 					if component.param == _null_:
@@ -1273,6 +1273,9 @@ cdef class LinearFunction_C:
 		result = self.__class__(self)
 		return result
 
+	def __copy__(self):
+		return self.copy()
+
 	def __deepcopy__(self, memodict):
 		result = self.__class__()
 		import copy
-- 
2.43.0


From fc49615080c96e5ba5e3b76e5cc386ec07cd4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 28/86] fix: extending a linear function with itself or an
 iterator

---
 larch/model/linear.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 85cde5c..efaaebe 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -938,6 +938,7 @@ cdef class LinearFunction_C:
 		_try_mangle(self._instance)
 
 	def extend(self, values):
+		values = list(values)
 		for v in values:
 			if not isinstance(v, LinearComponent_C):
 				raise TypeError("cannot add type {} to LinearFunction".format(type(v)))
@@ -980,7 +981,7 @@ cdef class LinearFunction_C:
 		if other == () or other == 0:
 			return self
 		elif isinstance(other, LinearFunction_C):
-			self._func.extend(other)
+			self._func.extend(list(other))
 			_try_mangle(self._instance)
 		elif isinstance(other, LinearComponent_C):
 			self.append(other)
-- 
2.43.0


From 72b884d0608cfe3c0e5fbea4f223541cd6897bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 29/86] fix: utilities of several alternatives do not share one
 function

---
 larch/model/linear.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index efaaebe..686601d 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -1451,6 +1451,10 @@ cdef class DictOfLinearFunction_C:
 			v = LinearFunction_C(v)
 		elif not isinstance(v, LinearFunction_C):
 			raise TypeError(f"values in {self.__class__} can only have type LinearFunction_C, not {type(v)}")
+		elif v is not self._map.get(k):
+			# Copy, so that later changes here do not leak into other places
+			# that hold the same function (nor the other way around).
+			v = LinearFunction_C(v)
 		if "with error" in repr(v):
 			raise ValueError("found error here")
 		v.set_instance(self._instance)
-- 
2.43.0


From 1be3a56554c0967292842d40a8d02211967f4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 30/86] fix: dividing by a scaled parameter and numbers by
 parameters

---
 larch/model/linear.pyx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 686601d..b4d6389 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -176,7 +176,9 @@ cdef class ParameterRef_C(UnicodeRef_C):
 			elif isinstance(other, DataRef_C):
 				return LinearComponent_C(param=str(self), data=str(1/other), scale=1)
 		elif isinstance(other, ParameterRef_C):
-			return NotImplemented
+			if isinstance(self, _Number):
+				from .linear_math import ParameterDivide
+				return ParameterDivide(self, other)
 		return NotImplemented # raise NotImplementedError(f"{_what_is(self)} / {_what_is(other)}")
 
 	def value(self, *args):
@@ -625,6 +627,15 @@ cdef class LinearComponent_C:
 					return self.as_pmath() / other
 				except NotImplementedError:
 					pass
+		elif isinstance(other, LinearComponent_C):
+			if isinstance(self, (ParameterRef_C, LinearFunction_C, _Number)):
+				from .linear_math import ParameterDivide
+				try:
+					if isinstance(self, LinearFunction_C):
+						return ParameterDivide(self.as_pmath(), other.as_pmath())
+					return ParameterDivide(self, other.as_pmath())
+				except NotImplementedError:
+					pass
 		raise NotImplementedError(f"{_what_is(self)} / {_what_is(other)}")
 
 	def __iter__(self):
-- 
2.43.0


From 9c528cc373f60bdb6e32808342fd518589358afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 31/86] fix: idca and idce rows, index levels and cases in any
 order are aligned

---
 larch/dataframes.pyx | 122 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 109 insertions(+), 13 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index d5065a6..d8282dd 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -289,6 +289,72 @@ def force_crack_idca(df:pandas.DataFrame, caseid_col=True):
 	return g.first()
 
 
+def _unstack_for_cases(values, index, cases=None):
+	"""
+	Expand values by case and alternative into one row per case, one column per alternative.
+
+	Parameters
+	----------
+	values : array-like
+	index : pandas.MultiIndex
+		The case and alternative of each value.
+	cases : pandas.DataFrame or pandas.Index, optional
+		All of the cases, including any that do not appear in the index.
+
+	Returns
+	-------
+	pandas.DataFrame
+		Combinations that do not appear in the index are zero.
+	"""
+	result = pandas.Series(numpy.asarray(values), index=index).unstack().fillna(0)
+	if isinstance(cases, pandas.DataFrame):
+		cases = cases.index
+	if cases is not None:
+		missing = pandas.Index(cases).difference(result.index)
+		if len(missing):
+			result = result.reindex(result.index.union(missing), fill_value=0)
+	return result
+
+
+def _conform_multiindex(df, alt_codes=None):
+	"""
+	Put the levels of a (case, alternative) MultiIndex in order.
+
+	Parameters
+	----------
+	df : pandas.DataFrame
+	alt_codes : array-like, optional
+		The codes of all alternatives, including any that do not appear in the index.
+
+	Returns
+	-------
+	pandas.DataFrame
+	"""
+	index = df.index.remove_unused_levels()
+	levels, codes = list(index.levels), list(index.codes)
+	for k in range(2):
+		target = levels[k]
+		if not target.is_monotonic_increasing:
+			target = target.sort_values()
+		if k == 1 and alt_codes is not None:
+			alt_codes = pandas.Index(alt_codes)
+			if alt_codes.is_monotonic_increasing and alt_codes.is_unique and target.isin(alt_codes).all():
+				target = alt_codes
+		if target is not levels[k]:
+			codes[k] = numpy.where(codes[k] < 0, -1, target.get_indexer(levels[k])[codes[k]])
+			levels[k] = target
+	df = df.copy(deep=False)
+	df.index = pandas.MultiIndex(levels=levels, codes=codes, names=index.names)
+	return df
+
+
+def _has_all_cases(df, co):
+	"""Check that every case in idco data has rows in this (case, alternative) data."""
+	if co is None:
+		return True
+	return len(co.index.difference(df.index.levels[0])) == 0
+
+
 def _infer_name(thing):
 	if thing is None:
 		return None
@@ -520,12 +586,17 @@ cdef class DataFrames:
 					else:
 						raise ValueError('ca multi-index must have integer values') from err
 
+			if ce is not None:
+				ce = _conform_multiindex(ce, alt_codes)
+			if ca is not None:
+				ca = _conform_multiindex(ca, alt_codes)
+
 			# reassign ca and ce as needed
 			if ca is None and ce is not None:
-				if get_dataframe_format(ce) == 'idca':
+				if get_dataframe_format(ce) == 'idca' and _has_all_cases(ce, co):
 					ca, ce = ce, None
 			elif ca is not None and ce is None:
-				if get_dataframe_format(ca) == 'idce':
+				if get_dataframe_format(ca) == 'idce' or not _has_all_cases(ca, co):
 					ca, ce = None, ca
 
 
@@ -556,6 +627,8 @@ cdef class DataFrames:
 				_n_cases= len(co)
 			elif ca is not None:
 				_n_cases= len(ca) / len(ca.index.levels[1])
+			elif ce is not None:
+				_n_cases= len(ce.index.levels[0])
 			else:
 				_n_cases= 0
 
@@ -1507,7 +1580,15 @@ cdef class DataFrames:
 			# Change level names if requested
 			caseindex_name = self._caseindex_name or df.index.names[0]
 			altindex_name = self._altindex_name or df.index.names[1]
-			df = df.set_index(df.index.set_names([caseindex_name, altindex_name]))
+			df = _conform_multiindex(df, self._alternative_codes)
+			df.index = df.index.set_names([caseindex_name, altindex_name])
+			if not df.index.is_monotonic_increasing:
+				df = df.sort_index()
+
+			if self._data_co is not None:
+				case_labels = df.index.levels[0][numpy.unique(df.index.codes[0])]
+				if not case_labels.equals(self._data_co.index):
+					raise ValueError('the cases of data_ca are not the cases of data_co')
 
 			if self._computational:
 				self._data_ca = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_ca')
@@ -1634,8 +1715,8 @@ cdef class DataFrames:
 			# Change level names if requested
 			caseindex_name = self._caseindex_name or df.index.names[0]
 			altindex_name = self._altindex_name or df.index.names[1]
-			df = df.set_index(df.index.set_names([caseindex_name, altindex_name]))
-
+			df = _conform_multiindex(df, self._alternative_codes)
+			df.index = df.index.set_names([caseindex_name, altindex_name])
 			if not df.index.is_monotonic_increasing:
 				df = df.sort_index()
 			if self._computational:
@@ -1645,8 +1726,16 @@ cdef class DataFrames:
 				self._data_ce = df
 				self._array_ce = None
 
-			unique_labels, new_labels =numpy.unique(self.data_ce.index.codes[0], return_inverse=True)
-			self._array_ce_caseindexes = new_labels
+			case_labels = self.data_ce.index.get_level_values(0)
+			if self._data_co is not None:
+				# cases that have no rows at all are still among the cases
+				unique_labels = self._data_co.index
+				new_labels = unique_labels.get_indexer(case_labels)
+				if (new_labels < 0).any():
+					raise ValueError('data_ce has cases that are not in data_co')
+			else:
+				unique_labels, new_labels = numpy.unique(case_labels, return_inverse=True)
+			self._array_ce_caseindexes = numpy.ascontiguousarray(new_labels, dtype=numpy.int64)
 
 			# min_case_x = self.data_ce.index.labels[0].min()
 			# if min_case_x == 0:
@@ -1654,7 +1743,7 @@ cdef class DataFrames:
 			# else:
 			# 	self._array_ce_caseindexes = self.data_ce.index.labels[0] - min_case_x
 			self._array_ce_altindexes  = self.data_ce.index.codes[1]
-			self._array_ce_reversemap = numpy.full([self._array_ce_caseindexes.max()+1, self._array_ce_altindexes.max()+1], -1, dtype=numpy.int64)
+			self._array_ce_reversemap = numpy.full([len(unique_labels), len(self.data_ce.index.levels[1])], -1, dtype=numpy.int64)
 			for i in range(len(self._array_ce_caseindexes)):
 				c = self._array_ce_caseindexes[i]
 				a = self._array_ce_altindexes[i]
@@ -1683,11 +1772,13 @@ cdef class DataFrames:
 		"""
 		if promote:
 			self.data_ce[promote] = numpy.int8(1)
-		result = self.data_ce.unstack().fillna(0).stack()
-		try:
-			result = result.astype(self.data_ce.dtypes)
-		except ValueError:
-			pass
+		result = self.data_ce.reindex(
+			pandas.MultiIndex.from_product(
+				[self.caseindex, self.alternative_codes()],
+				names=self.data_ce.index.names,
+			),
+			fill_value=0,
+		)
 		if promote:
 			self.data_ca = result
 		return result
@@ -3350,6 +3441,11 @@ cdef class DataFrames:
 		else:
 			df_co = None
 
+		if df_co is None and self._data_co is not None and self._data_ce is not None:
+			if self._array_ce_reversemap.base.max(axis=1).min() < 0:
+				# some cases have no rows at all, the cases are known only from data_co
+				df_co = pandas.DataFrame(index=self._data_co.index, dtype=float_dtype)
+
 		if 'choice_ca' in req_data:
 			name_ch = req_data['choice_ca']
 			if name_ch == self._data_ch_name:
-- 
2.43.0


From e11901756483841595a5a6484859328691d35bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 32/86] fix: choice, availability and weight frames are aligned
 to cases and alternatives

---
 larch/dataframes.pyx | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index d8282dd..9b4ce71 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -718,6 +718,7 @@ cdef class DataFrames:
 					if len(self._alternative_codes) > len(ch.columns):
 						if set(self._alternative_codes).issuperset(ch.columns):
 							ch = ch.reindex(columns=self._alternative_codes).fillna(0)
+				ch = self._align_to_alternatives(ch, 'ch')
 				self._ensure_consistent_alternative_codes(ch.columns)
 			if self._alternative_codes is None:
 				self._alternative_codes = pandas.Index([])
@@ -1458,6 +1459,29 @@ cdef class DataFrames:
 			logger.error(f"self._alternative_codes = {self._alternative_codes}")
 			raise
 
+	def _align_to_alternatives(self, df, label):
+		"""Put the columns of a DataFrame in the order of the alternative codes."""
+		codes = self._alternative_codes
+		if not isinstance(df, pandas.DataFrame) or codes is None or len(codes) == 0:
+			return df
+		if df.columns.equals(codes) or len(df.columns) > len(codes):
+			return df
+		if set(df.columns).issubset(codes) and df.columns.is_unique:
+			return df.reindex(columns=codes, fill_value=0)
+		return df
+
+	def _align_to_cases(self, df, label):
+		"""Put the rows of a DataFrame in the order of the cases."""
+		if not isinstance(df, pandas.DataFrame):
+			return df
+		if not df.index.is_monotonic_increasing:
+			df = df.sort_index()
+		if self._data_co is not None or self._data_ca is not None or self._data_ce is not None:
+			cases = self.caseindex
+			if len(cases) == len(df.index) and not df.index.equals(cases):
+				raise ValueError(f'the cases of {label} are not the cases of the other data')
+		return df
+
 	@property
 	def alternatives(self):
 		"""A dict mapping the id to the name of each alternative"""
@@ -1789,8 +1813,8 @@ cdef class DataFrames:
 
 	@data_av.setter
 	def data_av(self, df:pandas.DataFrame):
-		if df is not None and not df.index.is_monotonic_increasing:
-			df = df.sort_index()
+		df = self._align_to_cases(df, 'data_av')
+		df = self._align_to_alternatives(df, 'data_av')
 		self._data_av = _ensure_dataframe_of_dtype(df, numpy.int8, 'data_av', warn_on_convert=False)
 		self._array_av = _df_values(self.data_av, (self.n_cases, self.n_alts))
 
@@ -1853,8 +1877,8 @@ cdef class DataFrames:
 
 	@data_ch.setter
 	def data_ch(self, df:pandas.DataFrame):
-		if df is not None and not df.index.is_monotonic_increasing:
-			df = df.sort_index()
+		df = self._align_to_cases(df, 'data_ch')
+		df = self._align_to_alternatives(df, 'data_ch')
 		self._data_ch = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_ch')
 		self._array_ch = _df_values(self.data_ch, (self.n_cases, self.n_alts))
 
@@ -1945,6 +1969,7 @@ cdef class DataFrames:
 	def data_wt(self, df:pandas.DataFrame):
 		if isinstance(df, pandas.Series):
 			df=pandas.DataFrame(df)
+		df = self._align_to_cases(df, 'data_wt')
 		self._data_wt = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_wt')
 		self._array_wt = _df_values(self.data_wt, (self.n_cases, ))
 
-- 
2.43.0


From c6c5690caaf5efbada0af75cc7b8e31282b4a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 33/86] fix: long form choice, availability and weights reach
 their cases

---
 larch/dataframes.pyx | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 9b4ce71..fb7a722 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -632,31 +632,27 @@ cdef class DataFrames:
 			else:
 				_n_cases= 0
 
-			if ch is not None and len(ch.shape) == 1 and ch.shape[0] == _n_cases:
+			if ch is not None and len(ch.shape) == 1 and ch.shape[0] == _n_cases and not isinstance(getattr(ch, 'index', None), pandas.MultiIndex):
 				logger.warning('one-hot encoding choice array')
 				ch = to_categorical(ch)
 
-			if ch is None and ch_as_ce is not None and ce is not None:
+			ca_or_ce = ce if ce is not None else ca
+
+			if ch is None and ch_as_ce is not None and ca_or_ce is not None:
 				logger.debug(" DataFrames ~ building ch_as_ce")
-				_ch_temp = pandas.DataFrame(numpy.asarray(ch_as_ce), index=ce.index, columns=['choice'])
-				ch = _ch_temp.unstack().fillna(0)
-				ch.columns = ch.columns.droplevel(0)
+				ch = _unstack_for_cases(numpy.asarray(ch_as_ce).reshape(-1), ca_or_ce.index, co)
 
 			if ch is None and ch_name is not None and ce is not None and ch_name in ce.columns:
 				logger.debug(" DataFrames ~ pulling ch from ce")
-				_ch_temp = ce[ch_name]
-				ch = _ch_temp.unstack().fillna(0)
+				ch = _unstack_for_cases(ce[ch_name], ce.index, co)
 
 			if ch is None and ch_name is not None and ca is not None and ch_name in ca.columns:
 				logger.debug(" DataFrames ~ pulling ch from ca")
-				_ch_temp = ca[ch_name]
-				ch = _ch_temp.unstack().fillna(0)
+				ch = _unstack_for_cases(ca[ch_name], ca.index, co)
 
-			if av is None and av_as_ce is not None and ce is not None:
+			if av is None and av_as_ce is not None and ca_or_ce is not None:
 				logger.debug(" DataFrames ~ building av_as_ce")
-				_av_temp = pandas.DataFrame(numpy.asarray(av_as_ce), index=ce.index, columns=['avail'])
-				av = _av_temp.unstack().fillna(0)
-				av.columns = av.columns.droplevel(0)
+				av = _unstack_for_cases(numpy.asarray(av_as_ce).reshape(-1), ca_or_ce.index, co)
 
 			if wt_name is not None and wt is None:
 				if co is not None and wt_name in co.columns:
@@ -664,10 +660,10 @@ cdef class DataFrames:
 					wt = co[wt_name]
 				elif ca is not None and wt_name in ca.columns:
 					logger.debug(" DataFrames ~ build wt from ca")
-					_, wt = force_crack_idca(ca[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
+					wt = ca[[wt_name]].groupby(level=0).first()
 				elif ce is not None and wt_name in ce.columns:
 					logger.debug(" DataFrames ~ build wt from ce")
-					_, wt = force_crack_idca(ce[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
+					wt = ce[[wt_name]].groupby(level=0).first()
 
 			logger.debug(" DataFrames ~ set alternative_codes")
 			self._ensure_consistent_alternative_codes(alt_codes)
@@ -710,7 +706,7 @@ cdef class DataFrames:
 					)
 				else:
 					logger.debug(" DataFrames ~ unstack ch (slow)")
-					ch = ch.unstack().fillna(0)
+					ch = _unstack_for_cases(ch, ch.index, self.caseindex)
 
 			if ch is not None:
 				# check if there are missing columns for known alt codes
@@ -725,10 +721,9 @@ cdef class DataFrames:
 
 			logger.debug(" DataFrames ~ assign aux data")
 			self.data_ch = ch
-			try:
-				self.data_wt = wt
-			except ValueError:
-				self.data_wt = force_crack_idca(wt)
+			if wt is not None and isinstance(getattr(wt, 'index', None), pandas.MultiIndex):
+				wt = wt.groupby(level=0).first()
+			self.data_wt = wt
 			if av is None and self.data_ce is not None:
 				logger.debug(" DataFrames ~ build av from ce")
 				av = pandas.DataFrame(data=(self._array_ce_reversemap.base>=0), columns=self.alternative_codes(), index=self.caseindex)
@@ -774,7 +769,7 @@ cdef class DataFrames:
 						)
 					else:
 						logger.debug(" DataFrames ~ unstack av (slow)")
-						av = av.unstack()
+						av = _unstack_for_cases(av, av.index, self.caseindex)
 				self.data_av = av
 
 			self._weight_normalization = 1.0
-- 
2.43.0


From f6a2cc88eb087c2fb3a2eb2e15eb53cd32d41311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 34/86] fix: availability given by expression

---
 larch/dataframes.pyx | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index fb7a722..670a2bc 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -735,14 +735,10 @@ cdef class DataFrames:
 					dtype=numpy.int8,
 				)
 				for _altcode, _av_def in av.items():
-					_av_temp.loc[:,_altcode] = columnize(self.data_co, [_av_def], inplace=False, dtype=numpy.int8)
+					_av_temp[_altcode] = columnize(self.data_co, [_av_def], inplace=False, dtype=numpy.int8).iloc[:,0]
 				av = _av_temp
-			if isinstance(av, str) and self.data_ca is not None:
-				av = pandas.DataFrame(
-					data=columnize(self.data_ca, [av], inplace=False, dtype=numpy.int8).values.reshape(-1, len(self.alternative_codes())),
-					index=self.caseindex,
-					columns=self.alternative_codes(),
-				)
+			if isinstance(av, str) and self.data_ca_or_ce is not None:
+				av = columnize(self.data_ca_or_ce, [av], inplace=False, dtype=numpy.int8).iloc[:,0]
 			if av is True or (isinstance(av, (int, float)) and av==1):
 				if self.n_alts == 0:
 					raise ValueError('cannot declare all alternatives are available '
-- 
2.43.0


From 4edcdcf1b081effd46205df5d12386f9a89fa36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 35/86] fix: conversions of data between formats

---
 larch/dataframes.pyx | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 670a2bc..3d51708 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1690,16 +1690,9 @@ cdef class DataFrames:
 		"""
 		if self.data_co is None:
 			return None
-		cdef int c,a,v,row,n_vars
-		n_vars = self._array_co.shape[1]
-		arr = numpy.zeros( [len(self.data_ce), n_vars], dtype=l4_float_dtype )
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					for v in range(n_vars):
-						arr[row,v] = self._array_co[c,v]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['weight'])
+		result = self.data_co.reindex(self.data_ce.index.get_level_values(0))
+		result.index = self.data_ce.index
+		return result
 
 	@property
 	def data_ce(self):
@@ -1822,7 +1815,15 @@ cdef class DataFrames:
 		if self.data_ce is None:
 			if self._data_av is None:
 				raise NotImplementedError('not implemented when data_ce and data_av are None')
-			return self._data_av[self._data_av.stack().astype(bool).values]
+			keep = self._data_av.values.astype(bool).reshape(-1)
+			return pandas.DataFrame(
+				self._data_av.values.reshape(-1)[keep],
+				index=pandas.MultiIndex.from_product(
+					[self.caseindex, self.alternative_codes()],
+					names=[self._caseindex_name, self._altindex_name],
+				)[keep],
+				columns=['avail'],
+			)
 
 		arr = numpy.zeros( [len(self.data_ce)], dtype=numpy.int8 )
 		cdef int c,a,row
@@ -1941,7 +1942,15 @@ cdef class DataFrames:
 		if self.data_ce is None:
 			if self._data_av is None:
 				raise NotImplementedError('not implemented when data_ce and data_av are None')
-			return self._data_ch[self._data_av.stack().astype(bool).values]
+			keep = self._data_av.values.astype(bool).reshape(-1)
+			return pandas.DataFrame(
+				self._data_ch.values.reshape(-1)[keep],
+				index=pandas.MultiIndex.from_product(
+					[self.caseindex, self.alternative_codes()],
+					names=[self._caseindex_name, self._altindex_name],
+				)[keep],
+				columns=['choice'],
+			)
 
 		arr = numpy.zeros( [len(self.data_ce)], dtype=l4_float_dtype )
 		cdef int c,a,row
@@ -2018,6 +2027,7 @@ cdef class DataFrames:
 			).merge(
 				ca.unstack(),
 				left_index=True, right_index=True,
+				how='left',
 			)
 		elif ca is not None:
 			result = ca.unstack()
-- 
2.43.0


From 3de9460ce2ce329d85ab4e0966ba52581c565083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 36/86] fix: parts of the data without any rows of alternatives

---
 larch/dataframes.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 3d51708..0193b72 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -554,11 +554,11 @@ cdef class DataFrames:
 				if not isinstance(ce.index, pandas.MultiIndex) or ce.index.nlevels!=2:
 					raise ValueError('ce must have two level multi-index')
 				try:
-					ce = ce.set_index(ce.index.set_levels(ce.index.levels[0].astype(int), level=0))
+					ce = ce.set_index(ce.index.set_levels([ce.index.levels[0].astype(int)], level=[0]))
 				except Exception as err:
 					raise ValueError('ce multi-index must have integer case values') from err
 				try:
-					ce = ce.set_index(ce.index.set_levels(ce.index.levels[1].astype(int), level=1))
+					ce = ce.set_index(ce.index.set_levels([ce.index.levels[1].astype(int)], level=[1]))
 				except Exception as err:
 					if alt_codes is None and alt_names is None:
 						alt_names = list(ce.index.levels[1])
@@ -573,11 +573,11 @@ cdef class DataFrames:
 				if not isinstance(ca.index, pandas.MultiIndex) or ca.index.nlevels!=2:
 					raise ValueError('ca must have two level multi-index')
 				try:
-					ca = ca.set_index(ca.index.set_levels(ca.index.levels[0].astype(numpy.int64), level=0))
+					ca = ca.set_index(ca.index.set_levels([ca.index.levels[0].astype(numpy.int64)], level=[0]))
 				except Exception as err:
 					raise ValueError('ca multi-index must have integer values') from err
 				try:
-					ca = ca.set_index(ca.index.set_levels(ca.index.levels[1].astype(numpy.int64), level=1))
+					ca = ca.set_index(ca.index.set_levels([ca.index.levels[1].astype(numpy.int64)], level=[1]))
 				except Exception as err:
 					if alt_codes is None and alt_names is None:
 						alt_names = list(ca.index.levels[1])
-- 
2.43.0


From 2bba680765c85b0c7b98a8dfd1f648733bd5e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 37/86] fix: summaries and weight scaling without choices or
 weights

---
 larch/dataframes.pyx | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 0193b72..e343619 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1326,7 +1326,7 @@ cdef class DataFrames:
 				av_w = av
 				show_wt = False
 
-			if av_ is not None:
+			if av_ is not None and ch_ is not None:
 				ch_.values[av_.values > 0] = 0
 			if ch_ is not None and ch_.values.sum() > 0:
 				ch_but_not_av = ch_.sum()
@@ -3007,7 +3007,7 @@ cdef class DataFrames:
 		cdef bint need_to_extract_wgt_from_ch = False
 		cdef l4_float_t scale_level, temp
 
-		for i in range(self._array_ch.shape[0]):
+		for i in range(0 if self._data_ch is None else self._array_ch.shape[0]):
 			temp = 0
 			for j in range(self._array_ch.shape[1]):
 				temp += self._array_ch[i,j]
@@ -3034,8 +3034,15 @@ cdef class DataFrames:
 				self._array_wt[i] *= temp
 				i += 1
 
-		if self._data_wt is None and scale == 1.0:
-			return 1.0
+		if self._data_wt is None:
+			if scale == 1.0:
+				return 1.0
+			self.data_wt = pandas.DataFrame(
+				data=1.0,
+				index=self.caseindex,
+				columns=['computed_weight'],
+			)
+			self._data_wt_name = 'computed_weight'
 
 		scale_level = scale
 
@@ -3067,7 +3074,7 @@ cdef class DataFrames:
 		cdef bint need_to_extract_wgt_from_ch = False
 		cdef l4_float_t scale_level, temp
 
-		for i in range(self._array_ch.shape[0]):
+		for i in range(0 if self._data_ch is None else self._array_ch.shape[0]):
 			temp = 0
 			for j in range(self._array_ch.shape[1]):
 				temp += self._array_ch[i,j]
@@ -3119,8 +3126,9 @@ cdef class DataFrames:
 
 		scale_level = self._weight_normalization
 
-		for i in range(self._array_wt.shape[0]):
-			self._array_wt[i] *= scale_level
+		if self._data_wt is not None:
+			for i in range(self._array_wt.shape[0]):
+				self._array_wt[i] *= scale_level
 
 		self._weight_normalization /= scale_level
 
-- 
2.43.0


From 48144df5dfcb6785d10e789c9631d7e6576f832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 38/86] fix: saved data keeps its alternatives and weight
 normalization

---
 larch/dataframes.pyx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index e343619..114359d 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1119,7 +1119,7 @@ cdef class DataFrames:
 		caseindex = from_metadata(tb, b'CASEINDEX')
 		raw_wgtnorm = tb.schema.metadata.get(b'WGT_NORM', None)
 		if raw_wgtnorm:
-			wgtnorm = float.fromhex(raw_wgtnorm)
+			wgtnorm = float.fromhex(raw_wgtnorm.decode())
 		else:
 			wgtnorm = 1.0
 
@@ -2900,6 +2900,12 @@ cdef class DataFrames:
 			storage_dict['co'] = self.data_co
 		if self.data_wt is not None:
 			storage_dict['wt'] = self.data_wt
+		storage_dict['alt_codes'] = self.alternative_codes()
+		storage_dict['alt_names'] = self.alternative_names()
+		storage_dict['sys_alts'] = self._systematic_alternatives
+		storage_dict['weight_normalization'] = self._weight_normalization
+		storage_dict['caseindex_name'] = self._caseindex_name
+		storage_dict['altindex_name'] = self._altindex_name
 		import joblib
 		return joblib.dump(storage_dict, filename, **kwargs)
 
@@ -2926,7 +2932,10 @@ cdef class DataFrames:
 
 		import joblib
 		storage_dict = joblib.load(filename)
-		return cls(**storage_dict)
+		weight_normalization = storage_dict.pop('weight_normalization', 1.0)
+		result = cls(**storage_dict)
+		result.weight_normalization = weight_normalization
+		return result
 
 
 	def standardize(self, with_mean=True, with_std=True, DataFrames same_as=None):
-- 
2.43.0


From 5d18fca69fd6641ce81849351beeaa85f4eba4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 39/86] fix: weight normalization is not rounded to single
 precision

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 114359d..9bd6303 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3148,7 +3148,7 @@ cdef class DataFrames:
 		return self._weight_normalization
 
 	@weight_normalization.setter
-	def weight_normalization(self, float value):
+	def weight_normalization(self, double value):
 		if value <= 0:
 			raise ValueError('weight_normalization must be strictly positive')
 		self._weight_normalization = value
-- 
2.43.0


From 196a1a87d30f7b5a6b13a53496f9c15b4d852ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 40/86] fix: splits take the right rows and keep the weight
 normalization

---
 larch/dataframes.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 9bd6303..722998c 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3248,12 +3248,12 @@ cdef class DataFrames:
 				if self.data_ca is None:
 					data_ca = None
 				else:
-					these_positions_2 = numpy.in1d(self.data_ca.index.codes[0], numpy.where(these_positions))
+					these_positions_2 = self.data_ca.index.get_level_values(0).isin(self.caseindex[these_positions])
 					data_ca=self.data_ca.iloc[these_positions_2,:]
 				if self.data_ce is None:
 					data_ce = None
 				else:
-					these_positions_2 = numpy.in1d(self.data_ce.index.codes[0], numpy.where(these_positions))
+					these_positions_2 = self.data_ce.index.get_level_values(0).isin(self.caseindex[these_positions])
 					data_ce=self.data_ce.iloc[these_positions_2,:]
 					data_ce.index = remove_unused_level(data_ce.index, 0)
 
@@ -3284,6 +3284,7 @@ cdef class DataFrames:
 					wt_name=self._data_wt_name,
 					av_name=self._data_av_name,
 				))
+				result[-1].weight_normalization = self._weight_normalization
 			logger.debug(f'done splitting dataframe {splits}')
 			return result
 		except:
-- 
2.43.0


From 6841e347692374095cee61168f13201225a7fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:48 +0000
Subject: [PATCH 41/86] fix: selecting cases keeps the rows of the selected
 cases only

---
 larch/dataframes.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 722998c..771c223 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3376,6 +3376,7 @@ cdef class DataFrames:
 			inplace=False,
 			dtype=bool,
 		).iloc[:,0]
+		selected_cases = self.data_co.index[selector.values]
 
 		df_co = None
 		df_ca = None
@@ -3390,9 +3391,9 @@ cdef class DataFrames:
 			df_wt = self.data_wt[selector]
 
 		if self.data_ca is not None:
-			df_ca = self.data_ca.unstack()[selector].stack()
+			df_ca = self.data_ca[self.data_ca.index.get_level_values(0).isin(selected_cases)]
 		elif self.data_ce is not None:
-			df_ca = self.data_ce.unstack()[selector].stack()
+			df_ca = self.data_ce[self.data_ce.index.get_level_values(0).isin(selected_cases)]
 
 		if self.data_av is not None:
 			df_av = self.data_av[selector]
-- 
2.43.0


From 86e00cead6d3ae8c0779310ff1843f80ad762232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:48 +0000
Subject: [PATCH 42/86] fix: choices given by expressions for each alternative
 go to their alternatives

---
 larch/dataframes.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 771c223..88e6ccb 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3502,13 +3502,13 @@ cdef class DataFrames:
 					df_ch = self._data_ch
 		elif 'choice_co' in req_data:
 			alts = self.alternative_codes()
-			cols = [req_data['choice_co'].get(a, '0') for a in alts]
+			cols = {a:req_data['choice_co'].get(a, '0') for a in alts}
 			try:
 				df_ch = columnize(self._data_co, cols, inplace=False, dtype=float_dtype)
 			except NameError:
 				df_ch = self._data_ch
 			else:
-				df_ch.columns = alts
+				df_ch = df_ch.loc[:, alts]
 		elif 'choice_co_code' in req_data:
 			choicecodes = columnize(self._data_co, [req_data['choice_co_code']], inplace=False, dtype=int)
 			df_ch = pandas.DataFrame(
-- 
2.43.0


From ec672e894e32a58d2725b3c7d0e3d924d540feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 43/86] fix: pickling a model leaves the dashboard of its
 estimation result in place

---
 larch/model/controller.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 7deac4b..c39d36b 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -103,7 +103,8 @@ cdef class Model5c(AbstractChoiceModel):
 
 		mrer = self._most_recent_estimation_result
 		if mrer is not None and 'dashboard' in mrer:
-			del mrer['dashboard']
+			# the dashboard is not saved, but it stays with this model
+			mrer = type(mrer)({k: v for k, v in mrer.items() if k != 'dashboard'})
 
 		state = dict()
 		state["utility_ca                     ".strip()] = (self.utility_ca.copy()              )
@@ -125,7 +126,7 @@ cdef class Model5c(AbstractChoiceModel):
 		state["_display_order                 ".strip()] = (self._display_order                 )
 		state["_display_order_tail            ".strip()] = (self._display_order_tail            )
 		state["_possible_overspecification    ".strip()] = (self._possible_overspecification    )
-		state["_most_recent_estimation_result ".strip()] = (self._most_recent_estimation_result )
+		state["_most_recent_estimation_result ".strip()] = (mrer                                )
 		state["_cached_loglike_null           ".strip()] = (self._cached_loglike_null           )
 		state["_cached_loglike_nil            ".strip()] = (self._cached_loglike_nil            )
 		state["_cached_loglike_constants_only ".strip()] = (self._cached_loglike_constants_only )
-- 
2.43.0


From 18862a996e3ff41db65b5b3bd37f3962e736a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 44/86] fix: constraints of a model are saved, loaded and
 copied with it

---
 larch/model/controller.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index c39d36b..256e24e 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -133,6 +133,8 @@ cdef class Model5c(AbstractChoiceModel):
 		state["_cached_loglike_best           ".strip()] = (self._cached_loglike_best           )
 		state["_title                         ".strip()] = (self._title                         )
 		state["_matrixes                      ".strip()] = (self._matrixes                      )
+		if getattr(self, 'constraints', None) is not None:
+			state["constraints"] = list(self.constraints)
 
 		state = cloudpickle.dumps(state)
 		state = gzip.compress(state)
@@ -180,6 +182,10 @@ cdef class Model5c(AbstractChoiceModel):
 		self.unmangle(True)
 		self.n_threads = 0
 		self._prior_frame_values = None
+		if "constraints" in state:
+			self.constraints = []
+			self.constraints._cx.extend(state["constraints"])
+			self.constraints.relink()
 		# if self._graph is not None:
 		# 	self.graph.set_touch_callback(self.mangle)
 
-- 
2.43.0


From aafa6313efc4a504d98a02b70af86d58afb8596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 45/86] fix: models that share one DataFrames compute with
 their own parameters

---
 larch/model/controller.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 256e24e..e5d1aee 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -286,7 +286,7 @@ cdef class Model5c(AbstractChoiceModel):
 	def _frame_values_have_changed(self):
 		# refresh everything # TODO: only refresh what changed
 		try:
-			if self._dataframes is not None:
+			if self._dataframes is not None and self._dataframes._model is self:
 				self._dataframes._read_in_model_parameters()
 		except AttributeError:
 			# the model may not have been ever unmangled yet
@@ -857,6 +857,9 @@ cdef class Model5c(AbstractChoiceModel):
 		if x is not None:
 			self.set_values(x)
 		self.unmangle()
+		if self._dataframes._model is not self:
+			# another model has used the same dataframes in the meantime
+			self._refresh_derived_arrays()
 		self._dataframes._read_in_model_parameters()
 		if self._dataframes._data_ch is None:
 			if allow_missing_ch or self._does_not_require_choice:
-- 
2.43.0


From 50b4b9061945465eae4950fb218c998e439fd6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 46/86] fix: Model.load reads pickled models from their file

---
 larch/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 8c58d3a..e160f3a 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -139,7 +139,8 @@ class Model(_Model5c):
 			from ..util.excel import load_metadata
 			return load_metadata(filename, key='_self_')
 		import pickle
-		return pickle.load(filename)
+		with open(filename, 'rb') as f:
+			return pickle.load(f)
 
 	def __init__(
 			self,
-- 
2.43.0


From 5921f05652b5c1221f4e4716b5f94584a73c2e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 47/86] fix: models without a data service can be copied

---
 larch/model/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index e160f3a..108576b 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -166,9 +166,10 @@ class Model(_Model5c):
 		super().__init__(**kwargs)
 		if model is not None:
 			self.__setstate__(model.__getstate__())
-			if dataservice is None:
+			if dataservice is None and model.dataservice is not None:
 				self.dataservice = model.dataservice
-			self.dataframes = model.dataframes
+			if model.dataframes is not None:
+				self.dataframes = model.dataframes
 		if dataservice is not None:
 			self.dataservice = dataservice
 		self._scan_all_ensure_names()
@@ -755,7 +756,8 @@ class Model(_Model5c):
 		"""
 		import pickle
 		result = pickle.loads(self.dumps())
-		result.dataservice = self.dataservice
+		if self.dataservice is not None:
+			result.dataservice = self.dataservice
 		result._graph = result.graph
 		return result
 
-- 
2.43.0


From 971b93f76b7a2c863095f71b9b758c5f7815f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 48/86] fix: loglike_null restores parameter values when it
 fails

---
 larch/model/abstract_model.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 591830b..ee6497d 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -742,8 +742,10 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		else:
 			current_parameters = self.get_values()
 			self.set_values('null')
-			self._cached_loglike_null = self.loglike()
-			self.set_values(current_parameters)
+			try:
+				self._cached_loglike_null = self.loglike()
+			finally:
+				self.set_values(current_parameters)
 			return self._cached_loglike_null
 
 	def rho_sq_null(self, x=None, use_cache=True, adj=False):
-- 
2.43.0


From 854a01094bafea8d2e31e30d63197d16df0accc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 49/86] fix: estimation keeps held-fast parameters outside of
 their bounds in place

---
 larch/model/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index 5d081d0..52013f6 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -303,6 +303,9 @@ def maximize_loglike(
                 bounds = None
                 if isinstance(method ,str) and method.lower() in ('slsqp', 'l-bfgs-b', 'tnc', 'trust-constr'):
                     bounds = model.pbounds
+                    # held-fast parameters stay where they are, even outside of their bounds
+                    held = (model.pf['holdfast'] != 0).to_numpy()
+                    bounds.lb[held] = bounds.ub[held] = model.pvals[held]
                     if np.any(np.isinf(model.pf.minimum)) or np.any(np.isinf(model.pf.maximum)):
                         import warnings
                         warnings.warn( # infinite bounds # )
-- 
2.43.0


From 6668244d722ed0afc4a7716cb3076adf3a5f9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 50/86] fix: estimation leaves the model and its report at the
 final point

---
 larch/model/optimization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index 52013f6..9c505e5 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -331,6 +331,14 @@ def maximize_loglike(
                     constraints=constraints,
                     **kwargs
                 )
+                # the last point that was tried is not always the result
+                model.set_values(raw_result['x'])
+                raw_result['x'] = model.pvals
+                if np.shape(raw_result.get('jac')) == np.shape(raw_result['x']):
+                    # nor do all methods give the gradient at their result
+                    raw_result['jac'] = np.asarray(
+                        model.neg_d_loglike(raw_result['x'], *args, leave_out, keep_only, subsample)
+                    )
             except:
                 dashboard.update(
                     f'Iteration {iteration_number:03} [Exception] {iteration_number_tail}',
-- 
2.43.0


From d55012fced7351ac498b40a85a8cfed840d48188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 51/86] fix: BHHH does not fail when no parameter is free

---
 larch/model/abstract_model.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index ee6497d..3130d90 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -251,6 +251,9 @@ cdef class AbstractChoiceModel(ParameterFrame):
 					take[i, :] = False
 					take[:, i] = False
 					dense_s -= 1
+			if dense_s == 0:
+				# no parameter is free
+				return np.full_like(matrix, 0, dtype=np.float64)
 			hess_taken = matrix[take].reshape(dense_s, dense_s)
 			from ..linalg import general_inverse
 			try:
-- 
2.43.0


From 9f1a180e51ffe4779195d0998df7f60b6b5d33cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:25 +0000
Subject: [PATCH 52/86] fix: a model group notices when its members or their
 data change

---
 larch/model/abstract_model.pyx |  3 +++
 larch/model/model_group.py     | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 3130d90..ba1e4b3 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -50,6 +50,9 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		self.clear_best_loglike()
 		super().mangle(*args, **kwargs)
 
+	def _clear_null_loglike(self):
+		self._cached_loglike_null = 0
+
 	def clear_best_loglike(self):
 		if self._frame is not None and 'best' in self._frame.columns:
 			del self._frame['best']
diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index eaa6931..9119781 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -27,6 +27,7 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 			title=title,
 		)
 		self._k_models = list()
+		self._member_data = list()
 		for model in models:
 			if isinstance(model, ModelGroup):
 				self._k_models.extend(model._k_models)
@@ -43,9 +44,11 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 	def __setitem__(self, i, value):
 		assert isinstance(value, AbstractChoiceModel)
 		self._k_models[i] = value
+		self.mangle()
 
 	def __delitem__(self, x):
 		del self._k_models[x]
+		self.mangle()
 
 	def __len__(self):
 		return len(self._k_models)
@@ -56,6 +59,7 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 	def insert(self, i, value):
 		assert isinstance(value, AbstractChoiceModel)
 		self._k_models.insert(i,value)
+		self.mangle()
 
 	@property
 	def dataframes(self):
@@ -77,6 +81,14 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 		return sum(k.total_weight() for k in self._k_models)
 
 	def unmangle(self, force=False):
+		member_data = [i for k in self._k_models for i in (k, getattr(k, 'dataframes', None))]
+		if len(member_data) != len(self._member_data) or any(
+				i is not j for i, j in zip(member_data, self._member_data)
+		):
+			# what was computed before is about other data
+			self._member_data = member_data
+			self._clear_null_loglike()
+			self.mangle()
 		super().unmangle(force)
 		for k in self._k_models:
 			rows_to_import = [i for i in k.pf.index if i not in self._frame.index]
@@ -165,7 +177,11 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 		with warnings.catch_warnings():
 			warnings.simplefilter("ignore", category=ParameterNotInModelWarning)
 			for k in self._k_models:
-				k.set_values(**vals)
+				self.__share_parameters(k, vals)
+
+	def loglike_null(self, use_cache=True):
+		self.unmangle()
+		return super().loglike_null(use_cache=use_cache)
 
 	def load_data(self, dataservice=None, autoscale_weights=True, log_warnings=True):
 		for k in self._k_models:
-- 
2.43.0


From c622858ae9516c9075a9bcf11a443ccaa6bea24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:25 +0000
Subject: [PATCH 53/86] fix: set_values of a model group knows the parameters
 of new members

---
 larch/model/model_group.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index 9119781..b2b0377 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -154,6 +154,7 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 			If setting to 'best' but there is no 'best' column in
 			the `pf` parameters DataFrame.
 		"""
+		self.unmangle()
 		super().set_values(values=values, respect_holdfast=respect_holdfast, **kwargs)
 		self._frame_values_have_changed()
 
-- 
2.43.0


From 993d2b2cccc32e1780c17d44f254627eb4508f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:26 +0000
Subject: [PATCH 54/86] fix: members of a model group have its values and
 held-fast marks

---
 larch/model/model_group.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index b2b0377..2f946e7 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -158,13 +158,20 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 		super().set_values(values=values, respect_holdfast=respect_holdfast, **kwargs)
 		self._frame_values_have_changed()
 
+	def __share_parameters(self, k, vals):
+		# the members have the values of the group, also where they are held fast
+		k.set_values(**vals, respect_holdfast=False)
+		for i in k.pf.index.intersection(vals.index):
+			if k._frame.loc[i, 'holdfast'] != self._frame.loc[i, 'holdfast']:
+				k.set_value(i, holdfast=self._frame.loc[i, 'holdfast'])
+
 	def _frame_values_have_changed(self):
 		vals = self.pf.value.copy()
 		import warnings
 		with warnings.catch_warnings():
 			warnings.simplefilter("ignore", category=ParameterNotInModelWarning)
 			for k in self._k_models:
-				k.set_values(**vals)
+				self.__share_parameters(k, vals)
 				k._frame = k._frame.copy()
 		for k in self._k_models:
 			k._frame_values_have_changed()
-- 
2.43.0


From 565bf0e7a3b3bce91e71ac9cfcc947a5417c4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:26 +0000
Subject: [PATCH 55/86] fix: the score of a model group covers parameters no
 member has any more

---
 larch/model/model_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index 2f946e7..b83c18b 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -315,7 +315,7 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 		dll = ll2_parts[0].dll
 		for y in ll2_parts[1:]:
 			dll = dll.add(y.dll, fill_value=0)
-		dll = dll[self.pf.index]
+		dll = dll.reindex(self.pf.index, fill_value=0)
 		ll2 = dictx(
 			ll=sum(y.ll for y in ll2_parts),
 			dll=dll,
-- 
2.43.0


From 03466b0080f3e0cc1ce493d8fa424c65068e3106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:04 +0000
Subject: [PATCH 56/86] fix: BHHH of latent class models added each case's
 score to the next one's

---
 larch/model/nl.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index f492d6b..456de31 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -274,6 +274,7 @@ def d_loglike_from_d_probability(
 		int n_alts = probability.shape[1]
 		int n_params = d_probability.shape[2]
 		l4_float_t[:] d_LL_temp
+		l4_float_t[:] d_LL_choice
 		l4_float_t[:] d_LL_cum
 		l4_float_t[:,:] bhhh_temp
 		l4_float_t[:,:] bhhh_cum
@@ -284,6 +285,7 @@ def d_loglike_from_d_probability(
 			raise ValueError(f"probabilities.shape ~= choices.shape {probability.shape} != {array_ch.shape}")
 
 		d_LL_temp = numpy.zeros(n_params, dtype=l4_float_dtype)
+		d_LL_choice = numpy.zeros(n_params, dtype=l4_float_dtype)
 		d_LL_cum = numpy.zeros(n_params, dtype=l4_float_dtype)
 		if return_bhhh:
 			bhhh_cum = numpy.zeros([n_params, n_params], dtype=l4_float_dtype)
@@ -308,7 +310,7 @@ def d_loglike_from_d_probability(
 					return_bhhh,
 					d_LL_cum,
 					bhhh_cum,
-					&d_LL_temp[0],
+					&d_LL_choice[0],
 			)
 
 		if return_bhhh:
-- 
2.43.0


From 33ced986629abc5fb3569e2d3f588a66d7002ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:04 +0000
Subject: [PATCH 57/86] fix: the probability of an alternative that is not
 available has a derivative of zero in nested models

---
 larch/model/nl.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 456de31..5edc731 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -181,7 +181,7 @@ cdef void _nl_d_probability_from_d_utility(
 	for reversi_edge in range(n_edges):
 		edge = n_edges-reversi_edge-1
 		child  = dns[edge]
-		if True or array_ch[child]:
+		if log_cond_probability[edge] > -INFINITY32:
 			parent = ups[edge]
 			for param in range(n_params):
 				scratch[param] = (d_utility[child, param] - d_utility[parent, param])
-- 
2.43.0


From 7128acdbfdffe331296ef96e3c2e52b6a9d56ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:04 +0000
Subject: [PATCH 58/86] fix: latent class models apply the normalization of
 weights

---
 larch/model/latentclass.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 619c10c..5185627 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -411,10 +411,7 @@ class LatentClassModel(AbstractChoiceModel):
 		else:
 			stop_case_ = stop_case
 
-		if self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
-		else:
-			wt = None
+		wt = self._case_weights(start_case, stop_case_, step_case)
 
 		ch = self.dataframes.array_ch()[start_case:stop_case_:step_case]
 
@@ -574,8 +571,8 @@ class LatentClassModel(AbstractChoiceModel):
 		else:
 			stop_case_ = stop_case
 
-		if self.dataframes is not None and self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
+		if self.dataframes is not None:
+			wt = self._case_weights(start_case, stop_case_, step_case)
 		elif getattr(self._k_membership, 'data_as_loaded', None) is not None and 'wt' in self._k_membership.data_as_loaded:
 			wt = self._k_membership.data_as_loaded['wt'].values[start_case:stop_case_:step_case]
 		else:
@@ -609,6 +606,16 @@ class LatentClassModel(AbstractChoiceModel):
 
 
 
+	def _case_weights(self, start_case, stop_case, step_case):
+		"""The weight of each case in a slice of the cases, with the normalization, or None if they are all 1."""
+		if self._dataframes.data_wt is None and self._dataframes.weight_normalization == 1:
+			return None
+		if self._dataframes.data_wt is None:
+			wt = numpy.ones(self._dataframes.n_cases, dtype=l4_float_dtype)
+		else:
+			wt = self._dataframes.data_wt.values.reshape(-1)
+		return (wt[start_case:stop_case:step_case] * self._dataframes.weight_normalization).astype(l4_float_dtype)
+
 	@property
 	def dataframes(self):
 		return self._dataframes
-- 
2.43.0


From 4f997496f74c2c767413a6687469dc16a3605907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:04 +0000
Subject: [PATCH 59/86] fix: latent class models refuse folds instead of
 ignoring them

---
 larch/model/latentclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 5185627..1d3c99a 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -554,6 +554,9 @@ class LatentClassModel(AbstractChoiceModel):
 			The probability as an array, when `probability_only` is True and `persist` is 0.
 			A dictx is returned if `persist` is non-zero.
 		"""
+		if leave_out != -1 or keep_only != -1 or subsample != -1:
+			raise NotImplementedError()
+
 		self.__prep_for_compute(x)
 		pr = self.probability(
 			x=None,
-- 
2.43.0


From fc85271879b7427cc25f853bafca6310256868ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:04 +0000
Subject: [PATCH 60/86] fix: latent class models require the choice and
 availability data of their classes

---
 larch/model/latentclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 1d3c99a..56f3646 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -100,7 +100,7 @@ class LatentClassModel(AbstractChoiceModel):
 			for i in ['ca','co']:
 				if i in k_req or i in req:
 					req[i] = list(set(req.get(i,[])) | set(k_req.get(i,[])))
-			for i in ['weight_co', 'avail_ca', 'avail_co', 'choice_ca', 'choice_co_code', 'choice_co_vars', ]:
+			for i in ['weight_co', 'avail_ca', 'avail_co', 'avail_any', 'choice_ca', 'choice_co', 'choice_co_code', 'choice_any', ]:
 				if i in req:
 					if i in k_req and req[i] != k_req[i]:
 						raise ValueError(f'mismatched {i}')
-- 
2.43.0


From 3459dd85045d62af1ce102d385fcd8716724fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:04 +0000
Subject: [PATCH 61/86] fix: new data of a latent class model clear its cached
 statistics

---
 larch/model/latentclass.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 56f3646..3decfcd 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -633,8 +633,27 @@ class LatentClassModel(AbstractChoiceModel):
 		if self._dataframes.data_co is None and self._dataframes.data_ca is not None:
 			self._dataframes.data_co = pandas.DataFrame(data=None, index=self._dataframes.data_ca.index.levels[0].copy())
 
+		self.clear_best_loglike()
+		self._clear_null_loglike()
+
+		self._set_membership_data()
+		for k_name, k_model in self._k_models.items():
+			k_data = DataFrames(
+				co=x.data_co,
+				ca=x.data_ca,
+				ce=x.data_ce,
+				av=x.data_av,
+				ch=x.data_ch,
+				wt=x.data_wt,
+				alt_names=x.alternative_names(),
+				alt_codes=x.alternative_codes(),
+			)
+			k_data.weight_normalization = x.weight_normalization
+			k_model.dataframes = k_data
+
+	def _set_membership_data(self):
 		top_data = DataFrames(
-			co = x.make_idco(*self._k_membership.required_data().get('co', [])),
+			co = self._dataframes.make_idco(*self._k_membership.required_data().get('co', [])),
 			alt_codes=numpy.arange(1, len(self._k_models)+1),
 			alt_names=self._k_model_names(),
 			av=1,
@@ -647,17 +666,6 @@ class LatentClassModel(AbstractChoiceModel):
 		self._k_membership._model_does_not_require_choice = True
 
 		self._k_membership.dataframes = top_data
-		for k_name, k_model in self._k_models.items():
-			k_model.dataframes = DataFrames(
-				co=x.data_co,
-				ca=x.data_ca,
-				ce=x.data_ce,
-				av=x.data_av,
-				ch=x.data_ch,
-				wt=x.data_wt,
-				alt_names=x.alternative_names(),
-				alt_codes=x.alternative_codes(),
-			)
 
 	def mangle(self, *args, **kwargs):
 		self._k_membership.mangle()
-- 
2.43.0


From 40d14bc6552fd830d6dd80b6b90cd997e2274e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:04 +0000
Subject: [PATCH 62/86] fix: a latent class model and its parts share values at
 any time

---
 larch/model/latentclass.py | 94 +++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 46 deletions(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 3decfcd..bd5fcb3 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -11,13 +11,21 @@ from ..general_precision import l4_float_dtype
 from ..model import persist_flags
 from ..model.abstract_model import AbstractChoiceModel
 
-def sync_frames(*models):
+def sync_frames(*models, base=None):
 	"""
 	Synchronize model parameter frames.
 
 	Parameters
 	----------
 	*models : Sequence[Model]
+	base : pandas.DataFrame, optional
+		The content of the frame when it was last in sync.  What was changed
+		since then in the frame of any of the models is kept.
+
+	Returns
+	-------
+	bool
+		Whether any frame was replaced.
 	"""
 	# check if all frames are already in sync
 	in_sync = True
@@ -27,9 +35,19 @@ def sync_frames(*models):
 			in_sync = False
 	if not in_sync:
 		joined = pandas.concat([m._frame for m in models], sort=False)
-		joined = joined[~joined.index.duplicated(keep='first')]
+		joined = joined[~joined.index.duplicated(keep='first')].sort_index()
+		if base is not None:
+			for m in models[1:]:
+				names = m._frame.index.intersection(base.index)
+				for col in m._frame.columns.intersection(base.columns):
+					now, then = m._frame.loc[names, col], base.loc[names, col]
+					changed = names[(now != then) & ~(now.isnull() & then.isnull())]
+					joined.loc[changed, col] = now[changed]
+		joined = joined.astype({c: t for c, t in pf1.dtypes.items() if c in joined.columns and c != 'best'})
 		for m in models:
-			m.set_frame(joined)
+			m._frame = joined
+			m.mangle()
+	return not in_sync
 
 class LatentClassModel(AbstractChoiceModel):
 	"""
@@ -80,7 +98,7 @@ class LatentClassModel(AbstractChoiceModel):
 			if not (m.dataservice is None or m.dataservice is self._dataservice):
 				raise ValueError("dataservice for all constituent models must be the same")
 		self._dataframes = None
-		self._mangled = True
+		self._synced_frame = None
 		self.constraints = constraints
 		super().__init__(
 			parameters=None,
@@ -131,7 +149,7 @@ class LatentClassModel(AbstractChoiceModel):
 	def __prep_for_compute(self, x=None):
 		self.unmangle()
 		if x is not None:
-			self._k_membership.set_values(x)
+			self.set_values(x)
 
 	def class_membership_probability(self, x=None, start_case=0, stop_case=-1, step_case=1):
 		self.__prep_for_compute(x)
@@ -674,16 +692,29 @@ class LatentClassModel(AbstractChoiceModel):
 		super().mangle(*args, **kwargs)
 
 	def unmangle(self, force=False):
-		super().unmangle(force=force)
-		if self._mangled or force:
-			self._k_membership.unmangle(force=force)
-			for m in self._k_models.values():
+		parts = [self._k_membership, *self._k_models.values()]
+		if force or self._is_mangled() or any(m._is_mangled() or m._frame is not self._frame for m in parts):
+			# the specification or the parameters of a part have changed
+			self.clear_best_loglike()
+			self._clear_null_loglike()
+			if self._dataframes is not None:
+				needs = self._k_membership.required_data().get('co', [])
+				if not set(needs).issubset(self._k_membership.dataframes.data_co.columns):
+					self._set_membership_data()
+			for m in parts:
 				m.unmangle(force=force)
-			sync_frames(self, self._k_membership, *self._k_models.values())
-			self._k_membership.unmangle()
-			for m in self._k_models.values():
+			sync_frames(self, *parts, base=self._synced_frame)
+			super().unmangle(force=force)
+			for m in parts:
 				m.unmangle()
-			self._mangled = False
+		# a value set in any part is set in all of them
+		for m in parts:
+			m._check_if_frame_values_changed()
+		self._synced_frame = self._frame.copy()
+
+	def set_values(self, values=None, *, respect_holdfast=True, **kwargs):
+		self.unmangle()
+		super().set_values(values, respect_holdfast=respect_holdfast, **kwargs)
 
 	def load_data(self, dataservice=None, autoscale_weights=True, log_warnings=True):
 		self.unmangle()
@@ -698,42 +729,13 @@ class LatentClassModel(AbstractChoiceModel):
 			raise ValueError('dataservice is not defined')
 
 	def set_value(self, name, value=None, **kwargs):
-		if isinstance(name, ParameterRef_C):
-			name = str(name)
-		if name not in self.pf.index:
-			self.unmangle()
-		if value is not None:
-			# value = numpy.float64(value)
-			# self.frame.loc[name,'value'] = value
-			kwargs['value'] = value
-		for k,v in kwargs.items():
-			if k in self.pf.columns:
-				if self.pf.dtypes[k] == 'float64':
-					v = numpy.float64(v)
-				elif self.pf.dtypes[k] == 'float32':
-					v = numpy.float32(v)
-				elif self.pf.dtypes[k] == 'int8':
-					v = numpy.int8(v)
-				self.pf.loc[name, k] = v
-
-			# update init values when they are implied
-			if k=='value':
-				if 'initvalue' not in kwargs and pandas.isnull(self.pf.loc[name, 'initvalue']):
-					self.pf.loc[name, 'initvalue'] = l4_float_dtype(v)
-
-		# update null values when they are implied
-		if 'nullvalue' not in kwargs and pandas.isnull(self.pf.loc[name, 'nullvalue']):
-			self.pf.loc[name, 'nullvalue'] = 0
-
-		# refresh everything # TODO: only refresh what changed
-		self._k_membership._check_if_frame_values_changed()
-		for m in self._k_models.values():
-			m._check_if_frame_values_changed()
+		self.unmangle()
+		super().set_value(name, value, **kwargs)
 
 	def _frame_values_have_changed(self):
-		self._k_membership._frame_values_have_changed()
+		self._k_membership._check_if_frame_values_changed()
 		for m in self._k_models.values():
-			m._frame_values_have_changed()
+			m._check_if_frame_values_changed()
 
 	@property
 	def n_cases(self):
-- 
2.43.0


From 233fea3f1ab42ddb71a9d4281b5524bcfbd56ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:02 +0000
Subject: [PATCH 63/86] fix: neg_loglike3 returned an empty result

---
 larch/model/abstract_model.pyx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index ba1e4b3..32210a9 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -457,9 +457,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		return -np.asarray(result)
 
 	def neg_loglike3(self, *args, **kwargs):
-		from ..util import dictx
-		result = dictx()
-		part = self.loglike3(*args, **kwargs)
+		result = self.loglike3(*args, **kwargs)
 		return (-result.ll, -result.dll, -result.d2ll)
 
 	def _check_if_best(self, computed_ll, pvalues=None):
-- 
2.43.0


From ee74a2dc9d2ec0de38b7ff180501f0f13a7ca8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:02 +0000
Subject: [PATCH 64/86] fix: notes of constraints that no longer bind stay in
 the parameter frame

---
 larch/model/abstract_model.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 32210a9..e199619 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -1214,7 +1214,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 				self.pf['t_stat'] = (self.pf['value'] - self.pf['nullvalue']) / self.pf['std_err']
 
 				# Fix numerical issues on some constraints, add constrained notes
-				if binding_constraints or any(self.pf['holdfast']!=0):
+				if binding_constraints or any(self.pf['holdfast']!=0) or 'constrained' in self.pf.columns:
 					notes = {}
 					for c in binding_constraints:
 						pa = c.get_parameters()
@@ -1233,6 +1233,9 @@ cdef class AbstractChoiceModel(ParameterFrame):
 					self.pf.loc[self.pf['holdfast']!=0, 'constrained'] = 'fixed value'
 					self.pf.loc[self.pf['holdfast']!=0, 'std_err'] = np.nan
 					self.pf.loc[self.pf['holdfast']!=0, 't_stat'] = np.nan
+			elif 'constrained' in self.pf.columns:
+				# notes of an earlier computation
+				self.pf['constrained'] = np.where(self.pf['holdfast']!=0, 'fixed value', '')
 
 			if like_ratio:
 				non_finite_t = ~np.isfinite(self.pf.t_stat)
-- 
2.43.0


From 096b0027424a04706f79c1850534101e47ef4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:02 +0000
Subject: [PATCH 65/86] fix: probability_to_rank of a DataFrame

---
 larch/scoring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/scoring.py b/larch/scoring.py
index 0a84c81..effcf06 100644
--- a/larch/scoring.py
+++ b/larch/scoring.py
@@ -38,7 +38,7 @@ def probability_to_rank(arr):
 		An array or DataFrame (as arr) with ranks.
 	"""
 
-	temp = arr.argsort(axis=-1)
+	temp = numpy.asarray(arr).argsort(axis=-1)
 	ranks = numpy.empty_like(temp)
 	seq = numpy.arange(1,arr.shape[1]+1)[::-1]
 	for i in range(arr.shape[0]):
-- 
2.43.0


From 690aefe297fe6e3540205f7ee94476d31f445866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:02 +0000
Subject: [PATCH 66/86] fix: choice_avail_summary of a Dataset with weights, or
 without choices or availability

---
 larch/dataset/__init__.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/larch/dataset/__init__.py b/larch/dataset/__init__.py
index 273b6b7..807296a 100644
--- a/larch/dataset/__init__.py
+++ b/larch/dataset/__init__.py
@@ -1401,7 +1401,7 @@ def choice_avail_summary(dataset, graph=None, availability_co_vars=None):
             ch_ = np.asarray(dataset['ch'].copy())
         else:
             ch_ = None
-        av_ = np.asarray(dataset.get('av'))
+        av_ = np.asarray(dataset['av']) if 'av' in dataset else None
     else:
         from ..numba.cascading import array_av_cascade, array_ch_cascade
 
@@ -1420,12 +1420,13 @@ def choice_avail_summary(dataset, graph=None, availability_co_vars=None):
 
     arr_wt = dataset.get('wt')
     if arr_wt is not None:
+        arr_wt = np.asarray(arr_wt).reshape(-1, 1)
         if ch_ is not None:
-            ch_w = pd.Series((ch_ * arr_wt.values).sum(0))
+            ch_w = (ch_ * arr_wt).sum(0)
         else:
             ch_w = None
         if av_ is not None:
-            av_w = pd.Series((av_ * arr_wt.values).sum(0))
+            av_w = (av_ * arr_wt).sum(0)
         else:
             av_w = None
         show_wt = np.any(ch != ch_w)
@@ -1434,12 +1435,12 @@ def choice_avail_summary(dataset, graph=None, availability_co_vars=None):
         av_w = av
         show_wt = False
 
-    if av_ is not None:
+    if av_ is not None and ch_ is not None:
         ch_[av_ > 0] = 0
     if ch_ is not None and ch_.sum() > 0:
         ch_but_not_av = ch_.sum(0)
         if arr_wt is not None:
-            ch_but_not_av_w = pd.Series((ch_ * arr_wt.values).sum(0), index=ch_.columns)
+            ch_but_not_av_w = (ch_ * arr_wt).sum(0)
         else:
             ch_but_not_av_w = ch_but_not_av
     else:
@@ -1460,11 +1461,14 @@ def choice_avail_summary(dataset, graph=None, availability_co_vars=None):
     if show_wt:
         od['chosen weighted'] = pd.Series(ch_w, index=idx)
         od['chosen unweighted'] = pd.Series(ch, index=idx)
-        od['available weighted'] = pd.Series(av_w, index=idx)
-        od['available unweighted'] = pd.Series(av, index=idx)
+        if av is not None:
+            od['available weighted'] = pd.Series(av_w, index=idx)
+            od['available unweighted'] = pd.Series(av, index=idx)
     else:
-        od['chosen'] = pd.Series(ch, index=idx)
-        od['available'] = pd.Series(av, index=idx)
+        if ch is not None:
+            od['chosen'] = pd.Series(ch, index=idx)
+        if av is not None:
+            od['available'] = pd.Series(av, index=idx)
     if ch_but_not_av is not None:
         if show_wt:
             od['chosen but not available weighted'] = pd.Series(ch_but_not_av_w, index=idx)
@@ -1498,6 +1502,8 @@ def choice_avail_summary(dataset, graph=None, availability_co_vars=None):
         if tot in totals:
             result.loc['< Total All Alternatives >', tot] = totals[tot]
 
+    if '< Total All Alternatives >' not in result.index:
+        result.loc['< Total All Alternatives >', :] = np.nan
     result.loc['< Total All Alternatives >', pd.isnull(result.loc['< Total All Alternatives >', :])] = ""
     result.drop('_root_', errors='ignore', inplace=True)
 
-- 
2.43.0


From a91300ce84f3622822abadfd090f2ffa2193017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:12 +0000
Subject: [PATCH 67/86] fix: checks of data without choices or availability

---
 larch/troubleshooting.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/larch/troubleshooting.py b/larch/troubleshooting.py
index aa7c55d..a8d76d0 100644
--- a/larch/troubleshooting.py
+++ b/larch/troubleshooting.py
@@ -99,6 +99,10 @@ def chosen_but_not_available(dfs, repair=None, verbose=3):
 	else:
 		m = None
 
+	if dfs.data_ch is None or dfs.data_av is None:
+		# without choices or availability there is nothing to check
+		return (dfs if m is None else m), None
+
 	if m is not None and dfs.data_ch.shape[1] == len(m.graph):
 		# choice data is wide, make availability data wide
 		data_av = dfs.data_av_cascade(m.graph)
@@ -175,6 +179,10 @@ def chosen_but_zero_quantity(dfs, repair=None, verbose=3):
 	else:
 		m = None
 
+	if dfs.data_ch is None or dfs.data_av is None:
+		# without choices or availability there is nothing to check
+		return (dfs if m is None else m), None
+
 	try:
 		zero_q = dfs.get_zero_quantity_ca()
 	except ValueError:
-- 
2.43.0


From 7da3ad121c4be199996506f4e82a82cbece8d8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:12 +0000
Subject: [PATCH 68/86] fix: repair of nothing-chosen weights leaves missing
 weights alone

---
 larch/troubleshooting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/troubleshooting.py b/larch/troubleshooting.py
index a8d76d0..efb5297 100644
--- a/larch/troubleshooting.py
+++ b/larch/troubleshooting.py
@@ -279,9 +279,9 @@ def nothing_chosen_but_nonzero_weight(dfs, repair=None, verbose=3):
 			if repair == '+':
 				raise ValueError("cannot resolve chosen_but_zero_quantity by assuming some choice")
 			elif repair == '-':
-				dfs.array_wt()[nothing_chosen] = 0
+				dfs.array_wt()[nothing_chosen_some_weight] = 0
 			elif repair == '*':
-				dfs.array_wt()[nothing_chosen] = 0
+				dfs.array_wt()[nothing_chosen_some_weight] = 0
 				dfs.autoscale_weights()
 	if m is None:
 		return dfs, diagnosis
-- 
2.43.0


From 41f320828983aeef17bd0b0d980d5c599f810fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:36 +0000
Subject: [PATCH 69/86] fix: list of codes of several tables of systematic
 alternatives

---
 larch/model/systematic_alternatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/systematic_alternatives.py b/larch/model/systematic_alternatives.py
index 4410325..1fc1711 100644
--- a/larch/model/systematic_alternatives.py
+++ b/larch/model/systematic_alternatives.py
@@ -263,8 +263,6 @@ def _multiple_new_alternative_codes(
 		x += s
 		masks[-1] = 2 ** label_offset - 1
 
-		altcodes = numpy.unique(x)
-
 		if name in df1.columns and not overwrite:
 			_number = 2
 			while f'{name}_v{_number}' in df1.columns:
@@ -273,6 +271,8 @@ def _multiple_new_alternative_codes(
 
 		x_list.append(x)
 
+	altcodes = numpy.unique(numpy.concatenate(x_list))
+
 	sa = SystematicAlternatives(
 		masks=masks,
 		groupby=groupby,
-- 
2.43.0


From 7d4f50e6e28f5d0fd3155bbfd70b3dd2c8bc5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:36 +0000
Subject: [PATCH 70/86] fix: systematic alternative codes have room for the
 last alternative of a group, and leave their source alone

---
 larch/model/systematic_alternatives.py | 58 +++++++++++++-------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/larch/model/systematic_alternatives.py b/larch/model/systematic_alternatives.py
index 1fc1711..a94fd38 100644
--- a/larch/model/systematic_alternatives.py
+++ b/larch/model/systematic_alternatives.py
@@ -115,6 +115,7 @@ class SystematicAlternatives:
 			groupby_prefixes=None,
 			overwrite=overwrite,
 			complete_features_list=self._categoricals_source,
+			label_levels=int(self.masks[-1]),
 		)
 		return result
 
@@ -126,6 +127,24 @@ def _remap_position(i, found_alts):
 		return -1
 
 
+def _with_caseindex_column(df, caseindex=None):
+	"""A new dataframe that has the case identifier as a column, and the name of that column."""
+	if caseindex is not None and caseindex in df.columns:
+		named = any(i is not None for i in df.index.names)
+		return (df.reset_index() if named else df.copy()), caseindex
+	if df.index.nlevels > 1:
+		if caseindex is None:
+			caseindex = df.index.names[0]
+		if caseindex is None:
+			raise ValueError('cannot identify caseindex, existing multi-index top level is un-named')
+		return df.reset_index(), caseindex
+	if df.index.name is not None:
+		return df.reset_index(), df.index.name
+	if caseindex is not None:
+		return df.rename_axis(index=caseindex).reset_index(), caseindex
+	raise ValueError('cannot identify caseindex, existing index is un-named')
+
+
 def _multiple_new_alternative_codes(
 		df_list,
 		groupby,
@@ -135,6 +154,7 @@ def _multiple_new_alternative_codes(
 		groupby_prefixes=None,
 		overwrite=False,
 		complete_features_list=None,
+		label_levels=None,
 ):
 	"""
 
@@ -165,6 +185,8 @@ def _multiple_new_alternative_codes(
 		This argument can be important for OGEV models (e.g. when grouping by time slot but some time slots
 		have no alternatives present) or when train and test data may not include a completely overlapping
 		set of feature values.
+	label_levels : int, optional
+		Space for at least this number of alternatives within each group is reserved in the codes.
 
 	Returns
 	-------
@@ -175,19 +197,7 @@ def _multiple_new_alternative_codes(
 	df1_list = []
 	for df in df_list:
 
-		if df.index.nlevels > 1:
-			if caseindex is None:
-				caseindex = df.index.names[0]
-			if caseindex is None:
-				raise ValueError('cannot identify caseindex, existing multi-index top level is un-named')
-			df1 = df.reset_index()
-		elif df.index.name is not None:
-			caseindex = df.index.name
-			df1 = df.reset_index()
-		elif caseindex is not None:
-			df1 = df
-		else:
-			raise ValueError('cannot identify caseindex, existing index is un-named')
+		df1, caseindex = _with_caseindex_column(df, caseindex)
 
 		df1_list.append(df1)
 
@@ -206,7 +216,7 @@ def _multiple_new_alternative_codes(
 
 	masks = numpy.zeros(len(groupby) + 1, dtype=numpy.int64)
 
-	label_offset = int(numpy.ceil(numpy.log2(s_max_overall)))
+	label_offset = int(max(s_max_overall, label_levels or 0)).bit_length()
 
 	if complete_features_list is None:
 		complete_features_list = {}
@@ -309,6 +319,7 @@ def new_alternative_codes(
 		groupby_prefixes=None,
 		overwrite=False,
 		complete_features_list=None,
+		label_levels=None,
 ):
 	"""Create new systematic alternatives.
 
@@ -339,6 +350,8 @@ def new_alternative_codes(
 		This argument can be important for OGEV models (e.g. when grouping by time slot but some time slots
 		have no alternatives present) or when train and test data may not include a completely overlapping
 		set of feature values.
+	label_levels : int, optional
+		Space for at least this number of alternatives within each group is reserved in the codes.
 
 	Returns
 	-------
@@ -356,21 +369,10 @@ def new_alternative_codes(
 			groupby_prefixes=groupby_prefixes,
 			overwrite=overwrite,
 			complete_features_list=complete_features_list,
+			label_levels=label_levels,
 		)
 
-	if df.index.nlevels > 1:
-		if caseindex is None:
-			caseindex = df.index.names[0]
-		if caseindex is None:
-			raise ValueError('cannot identify caseindex, existing multi-index top level is un-named')
-		df1 = df.reset_index()
-	elif df.index.name is not None:
-		caseindex = df.index.name
-		df1 = df.reset_index()
-	elif caseindex is not None:
-		df1 = df
-	else:
-		raise ValueError('cannot identify caseindex, existing index is un-named')
+	df1, caseindex = _with_caseindex_column(df, caseindex)
 
 	if isinstance(groupby, str):
 		groupby = (groupby,)
@@ -384,7 +386,7 @@ def new_alternative_codes(
 
 	masks = numpy.zeros(len(groupby) + 1, dtype=numpy.int64)
 
-	label_offset = int(numpy.ceil(numpy.log2(s.max())))
+	label_offset = int(max(s.max(), label_levels or 0)).bit_length()
 
 	uniqs = [numpy.unique(_df.iloc[:, i + 1], return_inverse=True) for i, g in enumerate(groupby)]
 
-- 
2.43.0


From 2e90f50249cf9ac8945c1bca766863ef8ba56c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:37 +0000
Subject: [PATCH 71/86] fix: new_systematic_alternatives of data in idca format

---
 larch/dataframes.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 88e6ccb..a695e53 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3663,13 +3663,13 @@ cdef class DataFrames:
 
 		df = self._data_ca_or_ce
 
-		caseindex = self.data_ce.index.names[0]
+		caseindex = df.index.names[0]
 		if caseindex is None:
 			caseindex = "_caseid_"
 
 
 		df1, sa1 = new_alternative_codes(
-			self.data_ce,
+			df,
 			groupby=groupby,
 			caseindex=caseindex,
 			name=name,
-- 
2.43.0


From 118ac7e08bcb2eb33171b4fb81d488f5a27b5b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 72/86] fix: shape of a matrix file with data is refused when
 either side differs

---
 larch/omx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/omx.py b/larch/omx.py
index ef9f1ae..736dda0 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -177,7 +177,7 @@ class OMX(_omx_base_class):
 	@shape.setter
 	def shape(self, x):
 		if self.data._v_nchildren > 0:
-			if x[0] != self.shape[0] and x[1] != self.shape[1]:
+			if x[0] != self.shape[0] or x[1] != self.shape[1]:
 				raise OMXIncompatibleShape('this omx has shape {!s} but you want to set {!s}'.format(self.shape, x))
 		if self.data._v_nchildren == 0:
 			shp = numpy.empty(2, dtype=int)
-- 
2.43.0


From 59c1268be15624dbb7c75cfc6c7d7401fbb3dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 73/86] fix: crop of a matrix file

---
 larch/omx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 736dda0..672f0a1 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -200,14 +200,14 @@ class OMX(_omx_base_class):
 		if shape0 != shape1 and start0 == start1:
 			raise TypeError(
 				'do not automatically crop a square array into a non-square shape, results may be ambiguous')
-		for i in self.data._v_children:
+		for i in list(self.data._v_children):
 			self.add_matrix(i, self.data._v_children[i][:shape0, :shape1], overwrite=True, complevel=complevel,
 			                complib=complib, ignore_shape=True)
-		for i in self.lookup._v_children:
-			if self.lookup[i].shape[0] == start0:
+		for i in list(self.lookup._v_children):
+			if self.lookup._v_children[i].shape[0] == start0:
 				self.add_lookup(i, self.lookup._v_children[i][:shape0], overwrite=True, complevel=complevel,
 				                complib=complib, ignore_shape=True)
-			elif self.lookup[i].shape[1] == start1:
+			elif self.lookup._v_children[i].shape[0] == start1:
 				self.add_lookup(i, self.lookup._v_children[i][:shape1], overwrite=True, complevel=complevel,
 				                complib=complib, ignore_shape=True)
 		shp = numpy.empty(2, dtype=int)
-- 
2.43.0


From 075a0a11579eb517da73112084f730c7e0ebde37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 74/86] fix: length of look-ups is checked when the shape is
 set and there are no data

---
 larch/omx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/omx.py b/larch/omx.py
index 672f0a1..4be200e 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -386,7 +386,7 @@ class OMX(_omx_base_class):
 		if not ignore_shape:
 			if len(obj.shape) != 1:
 				raise OMXIncompatibleShape('all omx lookups must have 1 dimensional shape')
-			if self.data._v_nchildren > 0:
+			if self.data._v_nchildren > 0 or self.shape != (0, 0):
 				if obj.shape[0] not in self.shape:
 					raise OMXIncompatibleShape(
 						'this omx has shape {!s} but you want to add a lookup with {!s}'.format(self.shape, obj.shape))
-- 
2.43.0


From a9efd9df07060f4d94dadb5d766ced0c2d97397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 75/86] fix: change of the types of look-ups

---
 larch/omx.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 4be200e..70f003c 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -401,11 +401,11 @@ class OMX(_omx_base_class):
 		                          **kwargs)
 
 	def change_all_atoms_of_type(self, oldatom, newatom):
-		for name in self.data._v_children:
+		for name in list(self.data._v_children):
 			if self.data._v_children[name].dtype == oldatom:
 				print("changing matrix {} from {} to {}".format(name, oldatom, newatom))
 				self.change_atom_type(name, newatom, matrix=True, lookup=False)
-		for name in self.lookup._v_children:
+		for name in list(self.lookup._v_children):
 			if self.lookup._v_children[name].dtype == oldatom:
 				print("changing lookup {} from {} to {}".format(name, oldatom, newatom))
 				self.change_atom_type(name, newatom, matrix=False, lookup=True)
@@ -430,9 +430,8 @@ class OMX(_omx_base_class):
 		if lookup:
 			if name in self.lookup._v_children:
 				orig = self.lookup._v_children[name]
-				neww = self.add_blank_lookup(name + "_temp_atom", atom=atom)
-				for i in range(self.shape[0]):
-					neww[i] = orig[i]
+				neww = self.add_blank_lookup(name + "_temp_atom", atom=atom, shape=orig.shape[0])
+				neww[:] = orig[:]
 				if require_smaller and neww.size_on_disk >= orig.size_on_disk:
 					warnings.warn(
 						"abort change_atom_type on {}, {} > {}".format(name, neww.size_on_disk, orig.size_on_disk))
-- 
2.43.0


From 5b67d1570fd0edc7cdb6b8d27afcbd7c6bfc8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 76/86] fix: reverse look-ups lead from labels to indexes

---
 larch/omx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/omx.py b/larch/omx.py
index 70f003c..356d7ff 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -441,7 +441,7 @@ class OMX(_omx_base_class):
 
 	def get_reverse_lookup(self, name):
 		labels = self.lookup._v_children[name][:]
-		label_to_i = dict(enumerate(labels))
+		label_to_i = {label: i for i, label in enumerate(labels)}
 		self.rlookup[name] = label_to_i
 		return label_to_i
 
-- 
2.43.0


From 449dd174b39dd340f501983f2de3c2d69d0296ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 77/86] fix: indexes of labels that are not sorted

---
 larch/omx.py             | 6 +++---
 larch/util/arraytools.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 356d7ff..c2eedec 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -479,11 +479,11 @@ class OMX(_omx_base_class):
 		from .util.arraytools import is_sorted_and_unique
 		labels = self.lookup._v_children[lookupname][:]
 		if is_sorted_and_unique(labels):
-			return numpy.digitize(arr, labels, right=True)
-		uniq_labels, uniq_indexes = numpy.unique(labels, return_inverse=True)
+			return numpy.minimum(numpy.digitize(arr, labels, right=True), len(labels) - 1)
+		uniq_labels, uniq_indexes = numpy.unique(labels, return_index=True)
 		if len(uniq_labels) != len(labels):
 			raise OMXNonUniqueLookup("lookup '{}' does not have unique labels for each item".format(lookupname))
-		index_malordered = numpy.digitize(arr, uniq_labels, right=True)
+		index_malordered = numpy.minimum(numpy.digitize(arr, uniq_labels, right=True), len(labels) - 1)
 		return uniq_indexes[index_malordered]
 
 	def import_datatable_as_lookups(self, filepath, chunksize=10000, column_map=None, log=None, n_rows=None,
diff --git a/larch/util/arraytools.py b/larch/util/arraytools.py
index b6932c8..26054f6 100644
--- a/larch/util/arraytools.py
+++ b/larch/util/arraytools.py
@@ -50,11 +50,11 @@ def label_to_index(labels, arr):
 		return labels
 	labels = numpy.asarray(labels)
 	if is_sorted_and_unique(labels):
-		return numpy.digitize(arr, labels, right=True)
-	uniq_labels, uniq_indexes = numpy.unique(labels, return_inverse=True)
+		return numpy.minimum(numpy.digitize(arr, labels, right=True), len(labels) - 1)
+	uniq_labels, uniq_indexes = numpy.unique(labels, return_index=True)
 	if len(uniq_labels) != len(labels):
-		raise NonUniqueLookup("lookup '{}' does not have unique labels for each item".format(lookupname))
-	index_malordered = numpy.digitize(arr, uniq_labels, right=True)
+		raise NonUniqueLookup("lookup does not have unique labels for each item")
+	index_malordered = numpy.minimum(numpy.digitize(arr, uniq_labels, right=True), len(labels) - 1)
 	return uniq_indexes[index_malordered]
 
 
-- 
2.43.0


From bd052051b4e6437a6e2050ce442ee2919c1344bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 78/86] fix: look-ups imported from more than one chunk

---
 larch/omx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/omx.py b/larch/omx.py
index c2eedec..078bbce 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -564,6 +564,7 @@ class OMX(_omx_base_class):
 					else:
 						self.lookup._v_children[column_map[col]][start_ix:start_ix + len(chunk)] = chunk[col].values
 					self.lookup._v_children[column_map[col]].flush()
+			start_ix += len(chunk)
 			if log is not None:
 				log("finished processing chunk {} [{}]".format(n, sfr.progress()))
 
-- 
2.43.0


From cbc5a580fd760946e1fbcc67587f88a27a708d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 79/86] fix: row-and-column tables of a matrix file

---
 larch/omx.py | 54 ++++++++++++++++++++--------------------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 078bbce..2c25430 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -867,50 +867,38 @@ class OMX(_omx_base_class):
 		else:
 			_mat_names = mat_names
 
-		if isinstance(row_indexes, int):
+		if numpy.ndim(row_indexes) == 0:
 			row_indexes = numpy.full_like(col_indexes, row_indexes)
-		elif isinstance(col_indexes, int):
+		elif numpy.ndim(col_indexes) == 0:
 			col_indexes = numpy.full_like(row_indexes, col_indexes)
 
 		data = {
-			mat: self[mat][row_indexes, col_indexes]
+			mat: self.data._v_children[mat][numpy.asarray(row_indexes), numpy.asarray(col_indexes)]
 			for mat in _mat_names
 		}
 
 		if index is None:
-			try:
-				index = row_indexes.index
-			except AttributeError:
-				pass
-
-		if index is None:
-			try:
-				index = col_indexes.index
-			except AttributeError:
-				pass
-
-		if index is None:
-			try:
-				rows_name = row_indexes.name
-			except AttributeError:
-				rows_name = 'i'
-				while rows_name in mat_names:
-					rows_name = rows_name + "_"
-			data[rows_name] = row_indexes
+			for i in (row_indexes, col_indexes):
+				if isinstance(i, pandas.Series):
+					index = i.index
+					break
 
-			try:
-				cols_name = col_indexes.name
-			except AttributeError:
-				cols_name = 'j'
-				while cols_name in mat_names:
-					cols_name = cols_name + "_"
-			data[cols_name] = col_indexes
+		if index is None or (isinstance(index, str) and index == 'rc'):
+			names = []
+			for indexes, default_name in ((row_indexes, 'i'), (col_indexes, 'j')):
+				name = getattr(indexes, 'name', None)
+				if name is None:
+					name = default_name
+					while name in mat_names:
+						name = name + "_"
+				names.append(name)
+			index = pandas.MultiIndex.from_arrays(
+				[numpy.asarray(row_indexes), numpy.asarray(col_indexes)],
+				names=names,
+			)
 
 		result = pandas.DataFrame.from_dict(data)
-		if index is None or (isinstance(index, str) and index == 'rc'):
-			result = result.set_index([rows_name, cols_name])
-		else:
-			result.index = index
+		result.index = index
 		if isinstance(mat_names, Mapping):
 			result = result.rename(columns=mat_names)
 		return result
-- 
2.43.0


From 3bc720a765ecb1f552ad624ce3132b76cdeca8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 80/86] fix: import_omx closes the other file

---
 larch/omx.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 2c25430..71b134d 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -957,13 +957,16 @@ class OMX(_omx_base_class):
 
 	def import_omx(self, otherfile, tablenames, rowslicer=None, colslicer=None):
 		oth = OMX(otherfile, mode='r')
-		if tablenames == '*':
-			tablenames = oth.data._v_children.keys()
-		for tab in tablenames:
-			if rowslicer is None and colslicer is None:
-				self.add_matrix(tab, oth.data._v_children[tab][:])
-			else:
-				self.add_matrix(tab, oth.data._v_children[tab][rowslicer, colslicer])
+		try:
+			if tablenames == '*':
+				tablenames = oth.data._v_children.keys()
+			for tab in tablenames:
+				if rowslicer is None and colslicer is None:
+					self.add_matrix(tab, oth.data._v_children[tab][:])
+				else:
+					self.add_matrix(tab, oth.data._v_children[tab][rowslicer, colslicer])
+		finally:
+			oth.close()
 
 	@classmethod
 	def change_cols(cls, newfile, otherfile, datanames, lookuprownames, lookupcolnames, newshape, newslicecols=None,
-- 
2.43.0


From f880b97d33b57e07340f487a2dbd9e0dad770319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:16 +0000
Subject: [PATCH 81/86] fix: numba engine: unavailable rows of sparse data are
 not given a utility

---
 larch/numba/model.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 9f92d87..8f7f786 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -113,7 +113,7 @@ def quantity_from_data_ca(
                 # skipped alts are unavail, i.e. have zero size
                 utility_elem[j] = 0
                 j += 1
-            if model_q_ca_param.shape[0]:
+            if array_av[j] and model_q_ca_param.shape[0]:
                 for i in range(model_q_ca_param.shape[0]):
                     _temp = (
                             array_ce_data[row, model_q_ca_data[i]]
@@ -198,12 +198,15 @@ def utility_from_data_ca(
                 utility_elem[j] = -np.inf
                 j += 1
             # j = array_ce_indices[row] # happens naturally
-            for i in range(model_utility_ca_param.shape[0]):
-                _temp = array_ce_data[row, model_utility_ca_data[i]]
-                _temp *= model_utility_ca_param_scale[i]
-                utility_elem[j] += _temp * parameter_arr[model_utility_ca_param[i]]
-                if not holdfast_arr[model_utility_ca_param[i]]:
-                    dutility_elem[j, model_utility_ca_param[i]] += _temp
+            if array_av[j]:
+                for i in range(model_utility_ca_param.shape[0]):
+                    _temp = array_ce_data[row, model_utility_ca_data[i]]
+                    _temp *= model_utility_ca_param_scale[i]
+                    utility_elem[j] += _temp * parameter_arr[model_utility_ca_param[i]]
+                    if not holdfast_arr[model_utility_ca_param[i]]:
+                        dutility_elem[j, model_utility_ca_param[i]] += _temp
+            else:
+                utility_elem[j] = -np.inf
             j += 1
         while n_alts > j:
             # skipped alts are unavail
-- 
2.43.0


From b87982db9476b5f1f18f488de8b74a142c2e2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:16 +0000
Subject: [PATCH 82/86] fix: numba engine: score of size terms with zero size
 or a repeated size parameter

---
 larch/numba/model.py | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 8f7f786..b0e6ad0 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -121,16 +121,21 @@ def quantity_from_data_ca(
                             * np.exp(parameter_arr[model_q_ca_param[i]])
                     )
                     utility_elem[j] += _temp
-                    if not holdfast_arr[model_q_ca_param[i]]:
-                        dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value
 
-                for i in range(model_q_ca_param.shape[0]):
-                    if not holdfast_arr[model_q_ca_param[i]]:
-                        dutility_elem[j, model_q_ca_param[i]] /= utility_elem[j]
-
-                _tempsize = np.log(utility_elem[j])
+                _size = utility_elem[j]
+                if _size > 0:
+                    for i in range(model_q_ca_param.shape[0]):
+                        if not holdfast_arr[model_q_ca_param[i]]:
+                            _temp = (
+                                    array_ce_data[row, model_q_ca_data[i]]
+                                    * model_q_ca_param_scale[i]
+                                    * np.exp(parameter_arr[model_q_ca_param[i]])
+                            )
+                            dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value / _size
+
+                _tempsize = np.log(_size)
                 utility_elem[j] = _tempsize * scale_param_value
-                if (model_q_scale_param[0] >= 0) and not scale_param_holdfast:
+                if (model_q_scale_param[0] >= 0) and not scale_param_holdfast and _size > 0:
                     dutility_elem[j, model_q_scale_param[0]] += _tempsize
 
             j += 1
@@ -157,16 +162,21 @@ def quantity_from_data_ca(
                             * np.exp(parameter_arr[model_q_ca_param[i]])
                         )
                         utility_elem[j] += _temp
-                        if not holdfast_arr[model_q_ca_param[i]]:
-                            dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value
-
-                    for i in range(model_q_ca_param.shape[0]):
-                        if not holdfast_arr[model_q_ca_param[i]]:
-                            dutility_elem[j, model_q_ca_param[i]] /= utility_elem[j]
 
-                    _tempsize = np.log(utility_elem[j])
+                    _size = utility_elem[j]
+                    if _size > 0:
+                        for i in range(model_q_ca_param.shape[0]):
+                            if not holdfast_arr[model_q_ca_param[i]]:
+                                _temp = (
+                                    array_ca[j, model_q_ca_data[i]]
+                                    * model_q_ca_param_scale[i]
+                                    * np.exp(parameter_arr[model_q_ca_param[i]])
+                                )
+                                dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value / _size
+
+                    _tempsize = np.log(_size)
                     utility_elem[j] = _tempsize * scale_param_value
-                    if (model_q_scale_param[0] >= 0) and not scale_param_holdfast:
+                    if (model_q_scale_param[0] >= 0) and not scale_param_holdfast and _size > 0:
                         dutility_elem[j, model_q_scale_param[0]] += _tempsize
 
             else:
-- 
2.43.0


From 72a980e2bae197da09cebd46d0d4a7d0b2c0783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:16 +0000
Subject: [PATCH 83/86] fix: numba engine: score of nests with zero probability
 and of shared or held-fast logsum parameters

---
 larch/numba/model.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index b0e6ad0..5392b1b 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -433,11 +433,17 @@ def _numba_utility_to_loglike(
                         if dn_mu_slot >= 0:
                             dutility[dn, dn_mu_slot] += utility[dn]
                             dutility[dn, dn_mu_slot] /= parameter_arr[dn_mu_slot]
-                    up_mu_slot = mu_slots[up - n_alts]
-                    if up_mu_slot >= 0:
-                        # FIXME: alpha slots to appear here if cross-nesting is activated
-                        dutility[up, up_mu_slot] -= cond_prob * (utility[dn])
-                    dutility[up, :] += cond_prob * dutility[dn, :]
+                    if cond_prob > 0:
+                        up_mu_slot = mu_slots[up - n_alts]
+                        if up_mu_slot >= 0:
+                            # FIXME: alpha slots to appear here if cross-nesting is activated
+                            dutility[up, up_mu_slot] -= cond_prob * (utility[dn])
+                            # when a nest below shares this logsum parameter, its derivative
+                            # is not to be scaled by the division that is still to come
+                            dutility[up, up_mu_slot] += (
+                                cond_prob * dutility[dn, up_mu_slot] * (parameter_arr[up_mu_slot] - 1.0)
+                            )
+                        dutility[up, :] += cond_prob * dutility[dn, :]
 
             # d probability
             # scratch = np.zeros_like(parameter_arr)
@@ -476,6 +482,8 @@ def _numba_utility_to_loglike(
                     else:
                         mu_up = parameter_arr[up_mu_slot]
                     for p in range(parameter_arr.size):
+                        if holdfast_arr[p]:
+                            continue
                         if mu_up:
                             scratch_ = dutility[dn, p] - dutility[up, p]
                             if p == up_mu_slot:
-- 
2.43.0


From df2c54533239468393de1d6cdd2983e950317ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:16 +0000
Subject: [PATCH 84/86] fix: numba engine: tables of results for a model that
 holds only DataFrames

---
 larch/numba/model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 5392b1b..be79606 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1585,7 +1585,12 @@ class NumbaModel(_BaseModel):
             step_case=None,
     ):
         if return_dataframe:
-            idx = self.datatree.caseids()
+            if self.datatree is not None:
+                caseid_dim = self.datatree.CASEID
+                idx = self.datatree.caseids()
+            else:
+                caseid_dim = '_caseid_'
+                idx = self.dataframes.caseindex
             if idx is not None:
                 idx = idx[start_case:stop_case:step_case]
             if return_dataframe == 'names':
@@ -1598,11 +1603,11 @@ class NumbaModel(_BaseModel):
                 return DataArray(
                     arr,
                     coords={
-                        self.datatree.CASEID: idx,
+                        caseid_dim: idx,
                         'nodeid': np.asarray(self.graph.standard_sort),
                         'node_name': DataArray(np.asarray(self.graph.standard_sort_names), dims='nodeid'),
                     },
-                    dims=(self.datatree.CASEID, 'nodeid'),
+                    dims=(caseid_dim, 'nodeid'),
                 )
             result = pd.DataFrame(
                 data=arr,
-- 
2.43.0


From ba09dfe6e97c48f44caa6d9f28c990c8a8b9b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:16 +0000
Subject: [PATCH 85/86] fix: sparse choice and availability data without any ca
 utility

---
 larch/dataset/flow.py      |  2 +-
 larch/numba/data_arrays.py | 51 ++++++++++++++++++++++----------------
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/larch/dataset/flow.py b/larch/dataset/flow.py
index b900772..8b35d02 100644
--- a/larch/dataset/flow.py
+++ b/larch/dataset/flow.py
@@ -552,7 +552,7 @@ class _DatasetDC(_GenericFlow):
         else:
             ce_data = np.empty( (0, 0), dtype=float_dtype)
 
-        if self.ALTIDX is not None:
+        if self.ALTIDX is not None and 'ce_data' in self:
             ce_altidx = self[self.ALTIDX].values
         else:
             ce_altidx = np.empty( (0), dtype=np.int16)
diff --git a/larch/numba/data_arrays.py b/larch/numba/data_arrays.py
index b9e0b59..6ad1184 100755
--- a/larch/numba/data_arrays.py
+++ b/larch/numba/data_arrays.py
@@ -202,7 +202,7 @@ def prepare_data(
                 dtype=float_dtype,
                 cache_dir=cache_dir,
                 flow=flows.get('choice_ce'),
-                attach_indexes=False,
+                attach_indexes=model_dataset.dc.CASEPTR is None,
             )
             da_ch = DataArray(
                 ce_to_dense(
@@ -320,7 +320,7 @@ def prepare_data(
                     dtype=np.int8,
                     cache_dir=cache_dir,
                     flow=flows.get('avail_ce'),
-                    attach_indexes=False,
+                    attach_indexes=model_dataset.dc.CASEPTR is None,
                 )
                 da_av = DataArray(
                     ce_to_dense(
@@ -438,6 +438,29 @@ def _prep_ca(
         )
     return model_dataset.merge(da), flow
 
+def _attach_ce_indexes(model_dataset, datatree):
+    from ..dataset import DataArray
+    altidx = datatree.root_dataset.coords[datatree.ALTIDX]
+    altidx = altidx.drop_vars(list(altidx.coords))
+    model_dataset[datatree.ALTIDX] = altidx
+    model_dataset.dc.ALTIDX = datatree.ALTIDX
+    caseptr = datatree.root_dataset[datatree.CASEPTR]
+    caseptr = caseptr.drop_vars(list(caseptr.coords))
+    model_dataset[datatree.CASEPTR] = caseptr
+    model_dataset.dc.CASEPTR = datatree.CASEPTR
+    model_dataset = model_dataset.assign_coords({
+        datatree.CASEID: DataArray(
+            datatree.caseids(),
+            dims=(datatree.CASEID),
+        ),
+        datatree.ALTID: DataArray(
+            datatree.altids(),
+            dims=(datatree.ALTID),
+        ),
+    })
+    return model_dataset
+
+
 def _prep_ce(
         model_dataset,
         datatree,
@@ -457,7 +480,10 @@ def _prep_ce(
             proposal = datatree.root_dataset[vars_ca]
             if datatree.CASEALT in proposal.dims:
                 proposal = proposal.drop(list(proposal.coords)).rename(f"{s_tag}_data")
-                return model_dataset.merge(proposal), flow
+                model_dataset = model_dataset.merge(proposal)
+                if attach_indexes:
+                    model_dataset = _attach_ce_indexes(model_dataset, datatree)
+                return model_dataset, flow
     if isinstance(vars_ca, str):
         vars_ca = {vars_ca: vars_ca}
     if not isinstance(vars_ca, dict):
@@ -497,24 +523,7 @@ def _prep_ce(
     model_dataset = model_dataset.merge(da)
 
     if attach_indexes:
-        altidx = datatree.root_dataset.coords[datatree.ALTIDX]
-        altidx = altidx.drop_vars(list(altidx.coords))
-        model_dataset[datatree.ALTIDX] = altidx
-        model_dataset.dc.ALTIDX = datatree.ALTIDX
-        caseptr = datatree.root_dataset[datatree.CASEPTR]
-        caseptr = caseptr.drop_vars(list(caseptr.coords))
-        model_dataset[datatree.CASEPTR] = caseptr
-        model_dataset.dc.CASEPTR = datatree.CASEPTR
-        model_dataset = model_dataset.assign_coords({
-            datatree.CASEID: DataArray(
-                datatree.caseids(),
-                dims=(datatree.CASEID),
-            ),
-            datatree.ALTID: DataArray(
-                datatree.altids(),
-                dims=(datatree.ALTID),
-            ),
-        })
+        model_dataset = _attach_ce_indexes(model_dataset, datatree)
     model_dataset.dc.CASEID = datatree.CASEID
     model_dataset.dc.ALTID = datatree.ALTID
     return model_dataset, flow
-- 
2.43.0


From 02390e068759cdae0fc092446a8611d79d7fcb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:16 +0000
Subject: [PATCH 86/86] fix: data flows are not reused for trees that hold
 different variables

---
 larch/numba/data_arrays.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/larch/numba/data_arrays.py b/larch/numba/data_arrays.py
index 6ad1184..6618156 100755
--- a/larch/numba/data_arrays.py
+++ b/larch/numba/data_arrays.py
@@ -373,6 +373,15 @@ def flownamer(tag, definition_spec, extra_hash_features=()):
     return "pipeline_"+(base64.b32encode(defs_hash.digest())).decode().replace("=","")
 
 
+def _tree_features(tree):
+    # a flow is only good for trees that hold the same variables in the same places
+    features = list(tree._hash_features())
+    for name, subspace in sorted(tree.subspaces.items()):
+        for k in sorted(map(str, subspace.variables)):
+            features.append(f"{name}.{k}:{subspace[k].dims}")
+    return features
+
+
 def _prep_ca(
         model_dataset,
         shared_data_ca,
@@ -395,7 +404,7 @@ def _prep_ca(
         vars_ca = {vars_ca: vars_ca}
     if not isinstance(vars_ca, dict):
         vars_ca = {i:i for i in vars_ca}
-    flowname = flownamer(tag, vars_ca, shared_data_ca._hash_features())
+    flowname = flownamer(tag, vars_ca, _tree_features(shared_data_ca))
     if flow is None or flowname != flow.name:
         flow = shared_data_ca.setup_flow(vars_ca, cache_dir=cache_dir, name=flowname)
     else:
@@ -488,7 +497,7 @@ def _prep_ce(
         vars_ca = {vars_ca: vars_ca}
     if not isinstance(vars_ca, dict):
         vars_ca = {i:i for i in vars_ca}
-    flowname = flownamer(s_tag, vars_ca, datatree._hash_features())
+    flowname = flownamer(s_tag, vars_ca, _tree_features(datatree))
     if flow is None or flowname != flow.name:
         flow = datatree.setup_flow(vars_ca, cache_dir=cache_dir, name=flowname)
     arr = flow.load(
@@ -544,7 +553,7 @@ def _prep_co(
     assert isinstance(shared_data_co, DataTree)
     if not isinstance(vars_co, dict):
         vars_co = {i: i for i in vars_co}
-    flowname = flownamer(tag, vars_co, shared_data_co._hash_features())
+    flowname = flownamer(tag, vars_co, _tree_features(shared_data_co))
     if flow is None or flowname != flow.name:
         flow = shared_data_co.setup_flow(vars_co, cache_dir=cache_dir, name=flowname)
     arr = flow.load(
-- 
2.43.0

