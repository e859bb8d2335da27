From c2a0c5422c4ac409c01ad63fd906379837737add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 01/47] fix: SeasonalVirtualStorage.reset must clear the last
 active year

---
 pywr/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6f32f0e..3b041a8 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -691,6 +691,10 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
 
         super().__init__(*args, **kwargs)
 
+    def reset(self):
+        super().reset()
+        self._last_active_year = None
+
     def before(self, ts):
         super().before(ts)
 
-- 
2.43.0


From 19d758e7c3a5b09e0b809fbf5a78cc6a78213940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 02/47] fix: save prev_flow of aggregated and compound nodes
 after their flow is known

---
 pywr/_core.pyx | 8 ++++++--
 pywr/nodes.py  | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 3b1780c..7c1ad2e 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -760,7 +760,6 @@ cdef class AggregatedNode(AbstractNode):
             self.model.dirty = True
 
     cpdef after(self, Timestep ts):
-        AbstractNode.after(self, ts)
         cdef int i, j
         cdef Node n
 
@@ -775,6 +774,9 @@ cdef class AggregatedNode(AbstractNode):
             for j, n in enumerate(self._nodes):
                 self._flow[i] += n._flow[i]*weights[j]
 
+        # Save the previous flow once the aggregated flow of this time-step is known
+        AbstractNode.after(self, ts)
+
     property factors:
         def __get__(self):
             return self._factors
@@ -1399,7 +1401,6 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = np.nan
 
     cpdef after(self, Timestep ts):
-        AbstractStorage.after(self, ts)
         cdef int i
         cdef Storage s
         cdef double mxv
@@ -1426,6 +1427,9 @@ cdef class AggregatedStorage(AbstractStorage):
             except ZeroDivisionError:
                 self._current_pc[i] = np.nan
 
+        # Save the previous flow once the aggregated flow of this time-step is known
+        AbstractStorage.after(self, ts)
+
     cpdef double[:] get_all_min_volume(self, double[:] out=None):
         cdef int i
         cdef Storage s
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 3b041a8..e84438e 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1170,9 +1170,10 @@ class BreakLink(Node):
             yield self.storage.outputs[0]
 
     def after(self, timestep):
-        super(BreakLink, self).after(timestep)
         # update flow on transfer node to flow via link node
         self.commit_all(self.link.flow)
+        # Make sure save is done after setting aggregated flow
+        super(BreakLink, self).after(timestep)
 
 
 class DelayNode(Node):
@@ -1238,9 +1239,10 @@ class DelayNode(Node):
             yield self.output
 
     def after(self, timestep):
-        super().after(timestep)
         # delayed flow is saved to the DelayNode
         self.commit_all(self.input.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class LossLink(Node):
@@ -1363,9 +1365,10 @@ class LossLink(Node):
             yield self.gross
 
     def after(self, timestep):
-        super().after(timestep)
         # Net flow is saved to the node.
         self.commit_all(self.net.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class ShadowStorage(Loadable, Drawable, _core.ShadowStorage, metaclass=NodeMeta):
-- 
2.43.0


From db511a252689f6b62437ac1b03d36a3e0b8979d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 03/47] fix: AggregatedStorage.reset must not read unevaluated
 maximum volumes

---
 pywr/_core.pyx | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 7c1ad2e..53ab462 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1384,21 +1384,30 @@ cdef class AggregatedStorage(AbstractStorage):
             return np.sum([s.get_initial_volume() for s in self._storage_nodes])
 
     cpdef reset(self):
+        AbstractStorage.reset(self)
         cdef int i
-        cdef double mxv = 0.0
-        cdef ScenarioIndex si
+        cdef Storage s
+        cdef double mxv, volume, current_pc
 
-        for i, si in enumerate(self.model.scenarios.combinations):
+        volume = self.initial_volume
+        try:
             mxv = 0.0
             for s in self._storage_nodes:
-                mxv += s.get_max_volume(si)
-
-            self._volume[i] = self.initial_volume
-            # Ensure variable maximum volume is taken in to account
-            try:
-                self._current_pc[i] = self._volume[i] / mxv
-            except ZeroDivisionError:
-                self._current_pc[i] = np.nan
+                if s._max_volume_param is None:
+                    mxv += s._max_volume
+                elif s._max_volume_param.is_constant:
+                    mxv += s._max_volume_param.get_constant_value()
+                else:
+                    # The parameter is not evaluated at the beginning of the model run. In this case both the
+                    # initial volume and the initial proportion are given.
+                    mxv += s.get_initial_volume() / s.get_initial_pc()
+            current_pc = volume / mxv
+        except ZeroDivisionError:
+            current_pc = np.nan
+
+        for i in range(self._volume.shape[0]):
+            self._volume[i] = volume
+            self._current_pc[i] = current_pc
 
     cpdef after(self, Timestep ts):
         cdef int i
-- 
2.43.0


From 25350258ae296c3a024b997502064b5e63334e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 04/47] fix: Model.reset must also reset the sub-nodes of
 compound nodes

---
 pywr/_model.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2389d23..5855ebf 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -767,7 +767,7 @@ class Model(object):
         if profile:
             profiler = Profiler()
 
-        for node in self.nodes:
+        for node in self.graph.nodes():
             if length_changed:
                 try:
                     node.setup(self)
@@ -777,7 +777,8 @@ class Model(object):
                     raise
             try:
                 node.reset()
-                if profiler is not None:
+                # sub-nodes are not listed separately in the profile of a reset
+                if profiler is not None and node.parent is None:
                     profiler.checkpoint('reset', node.__class__.__name__, node.name)
             except Exception as err:
                 # reraise the exception after logging some info about source of error
-- 
2.43.0


From e5024e037fa2a065e07228cb038d0df9d426d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 05/47] fix: MultiModel must apply the time step length of its
 document

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 71d92e7..831a54d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -159,7 +159,7 @@ class MultiModel:
 
             sub_model.timestepper.start = timestepper_data["start"]
             sub_model.timestepper.end = timestepper_data["end"]
-            sub_model.timestepper.timestep = timestepper_data["timestep"]
+            sub_model.timestepper.delta = timestepper_data["timestep"]
             model.add_model(sub_model_name, sub_model)
 
         return model
-- 
2.43.0


From da14e9b73ba3b1109cecb0a6c2e6dad5035dce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 06/47] fix: MultiModel.load must pass on the requested solver

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 831a54d..0a69fc3 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -84,7 +84,7 @@ class MultiModel:
             data = data.read()
             return cls.loads(data, model, path, solver)
 
-        return cls.load_from_dict(data, model=model, path=path, solver=None)
+        return cls.load_from_dict(data, model=model, path=path, solver=solver)
 
     @classmethod
     def _load_from_dict(cls, *args, **kwargs) -> "MultiModel":
-- 
2.43.0


From d0211caa91f9342dde7f4c97c39374bcc7994bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 07/47] fix: allocate the buffers of storage and aggregated
 node rows with their element size

---
 pywr/solvers/cython_glpk.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index baa5f4a..810e70c 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -689,8 +689,8 @@ cdef class CythonGLPKSolver(GLPKSolver):
                     if some_node in route:
                         matrix[n] = w
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
@@ -1520,8 +1520,8 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     matrix[n] = w
 
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
-- 
2.43.0


From d4339a26035bb625af888aba11e4e138ce9c60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 08/47] fix: record the zero flow of an inactive virtual
 storage as its previous flow

---
 pywr/_core.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 53ab462..cbcaa5e 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1504,6 +1504,9 @@ cdef class VirtualStorage(Storage):
                 for n, f in zip(self._nodes, self._factors):
                     self._flow[i] -= f*n._flow[i]
             Storage.after(self, ts, adjustment=adjustment)
+        else:
+            # The volume is unaffected, but the (zero) flow still becomes the previous flow.
+            AbstractStorage.after(self, ts)
 
 
 cdef class RollingVirtualStorage(VirtualStorage):
-- 
2.43.0


From 501e5766b504465ecd6cee96b9825070a2669ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 09/47] fix: report the flow limits of piecewise links for all
 scenarios at once

---
 pywr/nodes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index e84438e..cdf4a80 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -841,6 +841,18 @@ class PiecewiseLink(Node):
     def get_max_flow(self, si):
         return sum([sl.get_max_flow(si) for sl in self.sublinks])
 
+    def get_all_min_flow(self, out=None):
+        if out is None:
+            out = np.empty(len(self.model.scenarios.combinations))
+        out[:] = sum(np.asarray(sl.get_all_min_flow()) for sl in self.sublinks)
+        return out
+
+    def get_all_max_flow(self, out=None):
+        if out is None:
+            out = np.empty(len(self.model.scenarios.combinations))
+        out[:] = sum(np.asarray(sl.get_all_max_flow()) for sl in self.sublinks)
+        return out
+
     def costs():
         def fget(self):
             return [sl.cost for sl in self.sublinks]
-- 
2.43.0


From 9877bbc6c0c69fa90c60808567e51f00fe10cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 10/47] fix: answer limit and cost queries on break and loss
 links with the link that holds them

---
 pywr/nodes.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index cdf4a80..19426fb 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1173,6 +1173,24 @@ class BreakLink(Node):
 
     cost = property(**cost())
 
+    def get_min_flow(self, scenario_index):
+        return self.link.get_min_flow(scenario_index)
+
+    def get_all_min_flow(self, out=None):
+        return self.link.get_all_min_flow(out)
+
+    def get_max_flow(self, scenario_index):
+        return self.link.get_max_flow(scenario_index)
+
+    def get_all_max_flow(self, out=None):
+        return self.link.get_all_max_flow(out)
+
+    def get_cost(self, scenario_index):
+        return self.link.get_cost(scenario_index)
+
+    def get_all_cost(self, out=None):
+        return self.link.get_all_cost(out)
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             # connecting FROM the transfer TO something else
@@ -1370,6 +1388,24 @@ class LossLink(Node):
 
     cost = property(**cost())
 
+    def get_min_flow(self, scenario_index):
+        return self.net.get_min_flow(scenario_index)
+
+    def get_all_min_flow(self, out=None):
+        return self.net.get_all_min_flow(out)
+
+    def get_max_flow(self, scenario_index):
+        return self.net.get_max_flow(scenario_index)
+
+    def get_all_max_flow(self, out=None):
+        return self.net.get_all_max_flow(out)
+
+    def get_cost(self, scenario_index):
+        return self.net.get_cost(scenario_index)
+
+    def get_all_cost(self, out=None):
+        return self.net.get_all_cost(out)
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             yield self.net
-- 
2.43.0


From e76c4060107b80032a91cac8a9748a8bf8e97935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 11/47] fix: aggregating 2D data with ignore_nan raised an
 error

---
 pywr/recorders/_recorders.pyx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 62b529e..879f1cd 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -146,7 +146,19 @@ cdef class Aggregator:
         cdef Py_ssize_t i
 
         if ignore_nan:
-            values = np.array(values)[~np.isnan(values)]
+            # the number of values left can differ between the columns (or rows), which
+            # are therefore aggregated one by one
+            if axis == 0:
+                out = np.empty(data.shape[1])
+                for i in range(data.shape[1]):
+                    out[i] = self.aggregate_1d(data[:, i], ignore_nan=True)
+            elif axis == 1:
+                out = np.empty(data.shape[0])
+                for i in range(data.shape[0]):
+                    out[i] = self.aggregate_1d(data[i, :], ignore_nan=True)
+            else:
+                raise ValueError('Axis "{}" not recognised when ignoring NaN.'.format(axis))
+            return out
 
         if self._func == AggFuncs.PRODUCT:
             return np.prod(values, axis=axis)
-- 
2.43.0


From 56dc65c2abd55df045f4dca6ce2b75fb6877c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 12/47] fix: aggregated recorder did not implement the median
 and count_nonzero functions

---
 pywr/recorders/_recorders.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 879f1cd..ea0ec9f 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -453,8 +453,14 @@ cdef class AggregatedRecorder(Recorder):
                     value[i] += value2[i]
             for i in range(n):
                 value[i] /= len(self.recorders)
-        else:
+        elif self._recorder_agg_func == AggFuncs.MEDIAN:
+            value = np.median([np.asarray(recorder.values()) for recorder in self.recorders], axis=0)
+        elif self._recorder_agg_func == AggFuncs.COUNT_NONZERO:
+            value = np.count_nonzero([np.asarray(recorder.values()) for recorder in self.recorders], axis=0).astype(np.float64)
+        elif self._recorder_agg_func == AggFuncs.CUSTOM:
             value = self.recorder_agg_func([recorder.values() for recorder in self.recorders], axis=0)
+        else:
+            raise ValueError('Aggregation function code "{}" not supported by {}.'.format(self._recorder_agg_func, self.__class__.__name__))
         return value
 
     @classmethod
-- 
2.43.0


From e469ed8e834c2d9b0dcd4f2feda5f8f21ba5c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 13/47] fix: multiple threshold parameters did not register
 their threshold parameters as dependencies

---
 pywr/parameters/_thresholds.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index 5a98a9f..cfec7a9 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -207,7 +207,7 @@ cdef class MultipleThresholdIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the node flow is above.
@@ -260,7 +260,7 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the parameter value is above.
-- 
2.43.0


From bd92f6e2854ff73be602a93511e40739efd9f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 14/47] fix: weighted average profile failed for storages with
 a constant parameter as maximum volume

---
 pywr/parameters/_control_curves.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 2b659e9..4126199 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -588,7 +588,7 @@ cdef class WeightedAverageProfileParameter(Parameter):
         for (storage, profile) in zip(self.storages, self.profiles):
             max_volume = storage.max_volume
             if isinstance(max_volume, Parameter):
-                if max_volume.is_constant():
+                if max_volume.is_constant:
                     max_volume = max_volume.get_constant_value()
                 else:
                     raise ValueError("Storages with max_volume set to non-constant parameters cannot be used in WeightedAverageProfileParameter")
-- 
2.43.0


From e7c43f5dc74f4e8f4f2eec3623895b54e8212dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 15/47] fix: scenario of a flow duration curve deviation
 recorder was dropped when loading

---
 pywr/recorders/_recorders.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index ea0ec9f..3a58c8a 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -999,10 +999,12 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
         # because the scenarios might change after the Recorder is created.
         if self.scenario is not None:
             if self._lower_target_fdc is not None:
-                if self._lower_target_fdc.shape[1] != self.scenario.size:
+                if self._lower_target_fdc.shape[1] > 1 and \
+                        self._lower_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of lower target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
             if self._upper_target_fdc is not None:
-                if self._upper_target_fdc.shape[1] != self.scenario.size:
+                if self._upper_target_fdc.shape[1] > 1 and \
+                        self._upper_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of upper target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
         else:
             if self._lower_target_fdc is not None:
@@ -1116,7 +1118,7 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
             lower_target_fdc.update({"indexes": percentiles})
             lower_target_fdc = load_parameter_values(model, lower_target_fdc)
         return cls(model, node, percentiles, lower_target_fdc=lower_target_fdc, upper_target_fdc=upper_target_fdc,
-                   **data)
+                   scenario=scenario, **data)
 
 FlowDurationCurveDeviationRecorder.register()
 
-- 
2.43.0


From 5c691fc86b85cbfe573ddf327fd4404cfee356cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 16/47] fix: mean and frequency recorders divided by one step
 too few unless the first time-stepper was exhausted

---
 pywr/recorders/_recorders.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 3a58c8a..641255f 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1816,7 +1816,8 @@ cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        # the current time-step is only past the end once the time-stepper is exhausted
+        cdef int nt = min(self.model.timestepper.current.index + 1, len(self.model.timestepper))
         for i in range(self._values.shape[0]):
             self._values[i] /= nt
 MeanFlowNodeRecorder.register()
@@ -1837,7 +1838,8 @@ cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        # the current time-step is only past the end once the time-stepper is exhausted
+        cdef int nt = min(self.model.timestepper.current.index + 1, len(self.model.timestepper))
         for i in range(self._values.shape[0]):
             self._values[i] /= nt
 DeficitFrequencyNodeRecorder.register()
@@ -2369,7 +2371,8 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        # the current time-step is only past the end once the time-stepper is exhausted
+        cdef int nt = min(self.model.timestepper.current.index + 1, len(self.model.timestepper))
         for i in range(self._values.shape[0]):
             self._values[i] /= nt
 MeanParameterRecorder.register()
-- 
2.43.0


From 764d219f3d2cda91fd05335ff8a2816d2c7fb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 17/47] fix: comment of a parameter was dropped when loading

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 39084ba..079a7c5 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -137,9 +137,9 @@ cdef class Parameter(Component):
             scenario = model.scenarios[scenario]
             # Only pass scenario object if one provided; most Parameter subclasses
             # do not accept a scenario argument.
-            return cls(model, scenario=scenario, values=values, name=name, comment=None, **data)
+            return cls(model, scenario=scenario, values=values, name=name, comment=comment, **data)
         else:
-            return cls(model, values=values, name=name, comment=None, **data)
+            return cls(model, values=values, name=name, comment=comment, **data)
 Parameter.register()
 
 
-- 
2.43.0


From b4d0ff766fbffa273cc3edb350e90cd0275d92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 18/47] fix: keyword arguments of a dataframe parameter were
 replaced by their names

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 079a7c5..12c1091 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -204,7 +204,7 @@ cdef class DataFrameParameter(Parameter):
         value available.
     """
     def __init__(self, model, dataframe, scenario=None, timestep_offset=0, **kwargs):
-        super(DataFrameParameter, self).__init__(model, *kwargs)
+        super(DataFrameParameter, self).__init__(model, **kwargs)
         self.dataframe = dataframe
         self.scenario = scenario
         self.timestep_offset = timestep_offset
-- 
2.43.0


From 7134f09490be784c20d257e845005ac7a5a32443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 19/47] fix: parameter types could not be named with the
 optional suffix

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 12c1091..eff1fde 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2280,7 +2280,7 @@ def get_parameter_from_registry(parameter_type):
     except KeyError:
         pass
     if key.endswith("parameter"):
-        key.replace("parameter", "")
+        key = key.replace("parameter", "")
     else:
         key = key + "parameter"
     try:
-- 
2.43.0


From 9e6fb0a197afec963fc0b23c2cc195d6c7b0ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 20/47] fix: rolling mean flow recorder ignored the remaining
 keys when loading

---
 pywr/recorders/_recorders.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 641255f..a8f560f 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1725,17 +1725,17 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
 
     @classmethod
     def load(cls, model, data):
-        name = data.get("name")
-        node = model.nodes[data["node"]]
+        name = data.pop("name", None)
+        node = model.nodes[data.pop("node")]
         if "timesteps" in data:
-            timesteps = int(data["timesteps"])
+            timesteps = int(data.pop("timesteps"))
         else:
             timesteps = None
         if "days" in data:
-            days = int(data["days"])
+            days = int(data.pop("days"))
         else:
             days = None
-        return cls(model, node, timesteps=timesteps, days=days, name=name)
+        return cls(model, node, timesteps=timesteps, days=days, name=name, **data)
 
 RollingMeanFlowNodeRecorder.register()
 
-- 
2.43.0


From 4c9e61614d1311994a599d198776115c4bf13ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 21/47] fix: CSV recorder rejected the csv_kwargs it accepts

---
 pywr/recorders/recorders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 3b4d3e5..45ee536 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -141,11 +141,12 @@ class CSVRecorder(Recorder):
         complevel=9,
         **kwargs,
     ):
+        csv_kwargs = kwargs.pop("csv_kwargs", {})
         super(CSVRecorder, self).__init__(model, **kwargs)
         self.csvfile = csvfile
         self.scenario_index = scenario_index
         self.nodes = nodes
-        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
+        self.csv_kwargs = csv_kwargs
         self._node_names = None
         self._fh = None
         self._writer = None
-- 
2.43.0


From 6206eee134e95783519e84786676649e4a411970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 22/47] fix: tables recorder rejected node objects

---
 pywr/recorders/recorders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 45ee536..252c9ef 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -444,7 +444,9 @@ class TablesRecorder(Recorder):
                     where, node = n
                 except (TypeError, ValueError):
                     node = n
-                    where = self.where + "/" + node
+                    where = self.where + "/" + (
+                        node if isinstance(node, str) else node.name
+                    )
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
-- 
2.43.0


From 3e6cfd74c2820f4c5699fcdbd74052c9ff590e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 23/47] fix: assertion recorder never reported that it was not
 called

---
 pywr/recorders/recorders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 252c9ef..f391bee 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -102,7 +102,7 @@ class AssertionRecorder(Recorder):
 
     def finish(self):
         super(AssertionRecorder, self).finish()
-        if sys.exc_info():
+        if sys.exc_info()[0] is not None:
             # exception was raised before we had a chance! (e.g. ModelStructureError)
             pass
         elif self.count == 0:
-- 
2.43.0


From 61f651eac5525b3e0ce2bb5691e55d8549298822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 24/47] fix: time-step licences could not be loaded from a
 document

---
 pywr/parameters/licenses.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index c375cc4..aca21b5 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -53,6 +53,12 @@ class TimestepLicense(License):
     def resource_state(self, timestep):
         return None
 
+    @classmethod
+    def load(cls, model, data):
+        node = model.nodes[data.pop("node")]
+        amount = data.pop("amount")
+        return cls(model, node, amount=amount, **data)
+
 
 TimestepLicense.register()
 
@@ -63,6 +69,9 @@ class DailyLicense(TimestepLicense):
     pass
 
 
+DailyLicense.register()
+
+
 class StorageLicense(License):
     def __init__(self, model, node, amount, **kwargs):
         """A license with a volume to be spent over multiple timesteps
-- 
2.43.0


From 9bdee1659f43ff05356a26b3ffa67e013d1b58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 25/47] fix: an error in finish() replaced the error that
 stopped the run

---
 pywr/_model.pyx |  9 ++++++++-
 pywr/model.py   | 12 +++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 5855ebf..d30c09a 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -650,7 +650,14 @@ class Model(object):
                 self.timestep = timestep
                 ret = self._step()
             t2 = time.time()
-        finally:
+        except BaseException:
+            # Finish without replacing the error that stopped the run
+            try:
+                self.finish()
+            except Exception:
+                logger.exception("An error occurred finishing a run that had already failed")
+            raise
+        else:
             self.finish()
         t3 = time.time()
 
diff --git a/pywr/model.py b/pywr/model.py
index 0a69fc3..25154df 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -264,7 +264,17 @@ class MultiModel:
                 # Perform the internal timestep
                 _ = self._step()
             t2 = time.time()
-        finally:
+        except BaseException:
+            # Finish without replacing the error that stopped the run
+            for model in self.models.values():
+                try:
+                    model.finish()
+                except Exception:
+                    logger.exception(
+                        "An error occurred finishing a run that had already failed"
+                    )
+            raise
+        else:
             for model in self.models.values():
                 model.finish()
         t3 = time.time()
-- 
2.43.0


From de8111cef25dff5f52b40ef94788d5810ba9ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 26/47] fix: files included by a model document were read
 twice, duplicating their scenarios

---
 pywr/_model.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index d30c09a..5798aa9 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -209,7 +209,6 @@ class Model(object):
             if path:
                 e.args = ("{} [{}]".format(e.args[0], os.path.basename(path)),)
             raise(e)
-        cls._load_includes(data, path)
         return cls.load(data, model, path, **kwargs)
 
     @classmethod
-- 
2.43.0


From 1dcae2802447ed9b1b119176e1ac4f32f20592bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 27/47] fix: includes were looked for in the parent directory
 if the path given is a directory

---
 pywr/_model.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 5798aa9..8bbec56 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -229,7 +229,9 @@ class Model(object):
             for filename in data["includes"]:
                 _, ext = os.path.splitext(filename)
                 if path is not None:
-                    filename = os.path.join(os.path.dirname(path), filename)
+                    # path may be the document itself or the directory it is in
+                    folder = path if os.path.isdir(path) else os.path.dirname(path)
+                    filename = os.path.join(folder, filename)
 
                 ext = ext.lower()
                 if ext == '.json':
-- 
2.43.0


From 973a13f7c0960e2ac672c90eb617e38a0db05283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 28/47] fix: the path of a sub-model was not taken relative to
 the document that gives it

---
 pywr/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/model.py b/pywr/model.py
index 25154df..afd024d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -148,6 +148,9 @@ class MultiModel:
                 )
             elif sub_model_data is not None:
                 sub_model_path = sub_model_definition.get("path", path)
+                if path is not None:
+                    # a relative path is relative to this document
+                    sub_model_path = os.path.join(path, sub_model_path)
 
                 sub_model = Model.load(
                     sub_model_data, path=sub_model_path, solver=sub_model_solver
-- 
2.43.0


From 2f675b3150fd8936a1e4912540a9421b7f26ee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 29/47] fix: scalar area of a KeatingAquifer in a document
 reaches the constructor

---
 pywr/domains/groundwater.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywr/domains/groundwater.py b/pywr/domains/groundwater.py
index 4175f5e..04a706c 100644
--- a/pywr/domains/groundwater.py
+++ b/pywr/domains/groundwater.py
@@ -112,6 +112,14 @@ class KeatingAquifer(Storage):
             node.max_flow = parameter
             node.min_flow = parameter
 
+    @classmethod
+    def _pre_load_parameter(cls, key, value, param_data, non_param_data):
+        if key == "area" and isinstance(value, numbers.Number):
+            # A scalar area is used by `__init__` to calculate the volumes
+            non_param_data[key] = value
+        else:
+            super()._pre_load_parameter(key, value, param_data, non_param_data)
+
     def initial_level():
         def fget(self):
             # get the initial level from the volume
-- 
2.43.0


From 04759c1289475248276d11d123af338dfacbe3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 30/47] fix: scenario slices with an open, negative or large
 end in data parameters

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index eff1fde..4769739 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -241,7 +241,7 @@ cdef class DataFrameParameter(Parameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
@@ -429,7 +429,7 @@ cdef class TablesArrayParameter(IndexParameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
-- 
2.43.0


From 5b892e8446261f8b1b073962b03035b8717d53db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 31/47] fix: pygmo equality constraints are the difference from
 their bound

---
 pywr/optimisation/pygmo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 4214ff9..ccfcdb8 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -35,7 +35,7 @@ class PygmoWrapper(BaseOptimisationWrapper):
                 ineq_constraints.append(r.constraint_lower_bounds - x)
                 ineq_constraints.append(x - r.constraint_upper_bounds)
             elif r.is_equality_constraint:
-                eq_constraints.append(x)
+                eq_constraints.append(x - r.constraint_lower_bounds)
             elif r.is_lower_bounded_constraint:
                 ineq_constraints.append(r.constraint_lower_bounds - x)
             elif r.is_upper_bounded_constraint:
-- 
2.43.0


From 5b687703ae949cc77c2410f4fea784163b206c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 32/47] fix: tables recorders accept node objects and
 two-letter node names

---
 pywr/recorders/_tables_recorders.pyx | 8 +++++---
 pywr/recorders/recorders.py          | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 5812459..bf5dfab 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -239,11 +239,13 @@ class TablesRecorder2(Recorder):
         else:
             items = []
             for n in self.nodes:
-                try:
+                if isinstance(n, (tuple, list)):
                     where, node = n
-                except (TypeError, ValueError):
+                else:
                     node = n
-                    where = self.where + "/" + node
+                    where = self.where + "/" + (
+                        node if isinstance(node, str) else node.name
+                    )
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index f391bee..c1ee381 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -440,9 +440,9 @@ class TablesRecorder(Recorder):
         else:
             nodes = []
             for n in self.nodes:
-                try:
+                if isinstance(n, (tuple, list)):
                     where, node = n
-                except (TypeError, ValueError):
+                else:
                     node = n
                     where = self.where + "/" + (
                         node if isinstance(node, str) else node.name
-- 
2.43.0


From e0f77642005c668fefdc09f80a54c3f73782c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 33/47] fix: tables recorders save scenario slices with open
 ends

---
 pywr/recorders/_tables_recorders.pyx | 10 ++++------
 pywr/recorders/recorders.py          | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index bf5dfab..40714cd 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -369,12 +369,10 @@ class TablesRecorder2(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index c1ee381..a7c0e18 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -536,12 +536,10 @@ class TablesRecorder(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
-- 
2.43.0


From 0b4c361a030d7a42143d99787995892d17d802b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 34/47] fix: TablesRecorder2 keeps the last buffered steps of
 an interrupted run

---
 pywr/recorders/_tables_recorders.pyx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 40714cd..ca06fff 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -99,6 +99,7 @@ class TablesRecorder2(Recorder):
         self.buffer_size = kwargs.pop("buffer_size", 100)
         self.buffer_timesteps = kwargs.pop("buffer_timesteps", None)
         self._buffer_num_timesteps = 1
+        self._buffer_write_position = 0
 
         title = kwargs.pop("title", None)
         if title is None:
@@ -578,6 +579,7 @@ class TablesRecorder2(Recorder):
             else:
                 buffer[0, buffer_idx, ...] = np.reshape(index_parameter.get_all_indices(), scenario_shape)
 
+        self._buffer_write_position = idx + 1
         # Flush before we overwrite the data if this is the last entry in the buffer
         if self._buffer_num_timesteps > 1 and (idx + 1) % self._buffer_num_timesteps == 0:
             self.flush_buffer(idx, self._buffer_num_timesteps)
@@ -616,16 +618,13 @@ class TablesRecorder2(Recorder):
     def finish(self):
 
         if self._buffer_num_timesteps > 1:
-            ts = self.model.timestepper.current
-            # The final time-step is one past the end of the data
-            idx = ts.index
+            # One past the last time-step that was recorded
+            idx = self._buffer_write_position
             residual_timesteps = idx % self._buffer_num_timesteps
 
-            # Flush the buffer if there are residual time-steps, or our buffer covered the entire simulation
+            # Flush the buffer if there are residual time-steps; a full buffer is flushed in `after`
             if residual_timesteps > 0:
                 self.flush_buffer(idx - 1, residual_timesteps)
-            elif self._buffer_num_timesteps == len(self.model.timestepper):
-                self.flush_buffer(idx - 1, self._buffer_num_timesteps)
 
         if self._time_table is not None:
             self._time_table.flush()
-- 
2.43.0


From 8e715fb4984a4ad055948de5635548c6ebffa504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 35/47] fix: factors, conversion factors, domains and deleted
 nodes take effect in the next step

---
 pywr/_core.pyx  | 4 ++++
 pywr/_model.pyx | 1 +
 2 files changed, 5 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index cbcaa5e..e9f9cc9 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -430,6 +430,7 @@ cdef class AbstractNode:
                 import warnings
                 warnings.warn("Setting domain property of node with a parent.")
             self._domain = value
+            self.model.dirty = True
 
     property parent:
         """The parent Node/Storage of this object.
@@ -700,6 +701,7 @@ cdef class Node(AbstractNode):
                 raise ValueError("Conversion factor can not be a Parameter.")
             else:
                 self._conversion_factor = value
+            self.model.dirty = True
 
     cpdef double get_conversion_factor(self) except? -1:
         """Get the conversion factor
@@ -1287,6 +1289,7 @@ cdef class Storage(AbstractStorage):
 
         def __set__(self, value):
             self._domain = value
+            self.model.dirty = True
 
     cpdef reset(self):
         """Called at the beginning of a run"""
@@ -1492,6 +1495,7 @@ cdef class VirtualStorage(Storage):
 
         def __set__(self, value):
             self._factors = np.array(value, dtype=np.float64)
+            self.model.dirty = True
 
     cpdef after(self, Timestep ts, double[:] adjustment=None):
         cdef int i
diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 8bbec56..23a4de8 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -980,6 +980,7 @@ class NodeIterator(object):
         for node2 in nodes_to_delete:
             del(self[node2])
         self.model.graph.remove_node(node)
+        self.model.dirty = True
 
     def keys(self):
         for node in self._nodes():
-- 
2.43.0


From 92282cfbd9ee4a6b157b5c053a2037769c930652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 36/47] fix: scenario slices and combinations take effect in
 the next run

---
 pywr/_core.pxd |  3 ++-
 pywr/_core.pyx | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 0ccb43a..61993d8 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -4,7 +4,8 @@ from .parameters._parameters cimport Parameter
 cdef class Scenario:
     cdef basestring _name
     cdef int _size
-    cdef public slice slice
+    cdef slice _slice
+    cdef object _model
     cdef object _ensemble_names
 
 cdef class ScenarioCollection:
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index e9f9cc9..d6ccf03 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -44,6 +44,7 @@ cdef class Scenario:
         if size < 1:
             raise ValueError("Size must be greater than or equal to 1.")
         self._size = size
+        self._model = model
         self.slice = slice
         self.ensemble_names = ensemble_names
         # Do this last so only set on the model if no error is raised.
@@ -71,6 +72,15 @@ cdef class Scenario:
                 raise ValueError("The length of ensemble_names ({}) must be equal to the size of the scenario ({})".format(len(names), self.size))  # noqa
             self._ensemble_names = names
 
+    property slice:
+        """The subset of the ensembles that is run, or `None` for all of them"""
+        def __get__(self):
+            return self._slice
+
+        def __set__(self, value):
+            self._slice = value
+            self._model.dirty = True
+
 cdef class ScenarioCollection:
     """ Represents a collection of `Scenario` objects.
 
@@ -135,6 +145,7 @@ cdef class ScenarioCollection:
             return self._user_combinations
 
         def __set__(self, values):
+            self.model.dirty = True
             if values is None:
                 self._user_combinations = None
                 return
-- 
2.43.0


From e234f85721c035295a6bc0ed2d8ee7ee304dd676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 37/47] fix: members of an aggregated node that share a route
 all count towards its limits

---
 pywr/solvers/cython_glpk.pyx    | 14 ++++++++++----
 pywr/solvers/cython_lpsolve.pyx | 12 +++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 810e70c..daeff5d 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -685,9 +685,15 @@ cdef class CythonGLPKSolver(GLPKSolver):
 
             matrix = {}
             for some_node, w in zip(nodes, weights):
-                for n, route in enumerate(routes):
-                    if some_node in route:
-                        matrix[n] = w
+                # A route counts once for every member whose flow it contributes to
+                if isinstance(some_node, BaseInput):
+                    cols = [n for n, route in enumerate(routes) if route[0] is some_node]
+                elif isinstance(some_node, BaseOutput):
+                    cols = [n for n, route in enumerate(routes) if route[-1] is some_node]
+                else:
+                    cols = [n for n, route in enumerate(routes) if some_node in route]
+                for n in cols:
+                    matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
             ind = <int*>malloc((1+length) * sizeof(int))
             val = <double*>malloc((1+length) * sizeof(double))
@@ -1517,7 +1523,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     node_cols = some_node._AbstractNode__data.out_edges
 
                 for n in node_cols:
-                    matrix[n] = w
+                    matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc((1+length) * sizeof(int))
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 2eb1e72..ead62ff 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -427,9 +427,15 @@ cdef class CythonLPSolveSolver:
 
             matrix = {}
             for node, w in zip(nodes, weights):
-                for n, route in enumerate(routes):
-                    if node in route:
-                        matrix[n] = w
+                # A route counts once for every member whose flow it contributes to
+                if isinstance(node, BaseInput):
+                    cols = [n for n, route in enumerate(routes) if route[0] is node]
+                elif isinstance(node, BaseOutput):
+                    cols = [n for n, route in enumerate(routes) if route[-1] is node]
+                else:
+                    cols = [n for n, route in enumerate(routes) if node in route]
+                for n in cols:
+                    matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(length * sizeof(int))
-- 
2.43.0


From 8b1ea89c5c04d4f5bd4548abd0e2a50eb74e253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 38/47] fix: the limits of aggregated nodes are refreshed in
 every solve with lpsolve

---
 pywr/solvers/cython_lpsolve.pyx | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index ead62ff..3a895bc 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -122,6 +122,7 @@ cdef class CythonLPSolveSolver:
     cdef list storages
     cdef list virtual_storages
     cdef list aggregated
+    cdef list aggregated_min_max
     cdef public object stats
     cdef int num_routes
     cdef int num_scenarios
@@ -196,9 +197,7 @@ cdef class CythonLPSolveSolver:
                                         when using the lpsolve solver. Please use the glpk or glpk-edge solver \
                                         instead".format(some_node.name))
                     aggregated.append(some_node)
-                if some_node.min_flow > -inf or \
-                   some_node.max_flow < inf:
-                    aggregated_min_max.append(some_node)
+                aggregated_min_max.append(some_node)
 
         if len(routes) == 0:
             raise ModelStructureError("Model has no valid routes")
@@ -412,14 +411,6 @@ cdef class CythonLPSolveSolver:
         for row, agg_node in enumerate(aggregated_min_max):
             row = self.idx_row_aggregated_min_max + row
             nodes = agg_node.nodes
-            min_flow = agg_node.min_flow
-            max_flow = agg_node.max_flow
-            if min_flow is None:
-                min_flow = -inf
-            if max_flow is None:
-                max_flow = inf
-            min_flow = inf_to_dbl_max(min_flow)
-            max_flow = inf_to_dbl_max(max_flow)
 
             weights = agg_node.flow_weights
             if weights is None:
@@ -444,7 +435,6 @@ cdef class CythonLPSolveSolver:
                 ind[i] = 1+col
                 val[i] = matrix[col]
             add_constraintex(self.prob, length, val, ind, EQ, 0.0)
-            set_row_bnds(self.prob, row, min_flow, max_flow)
             free(ind)
             free(val)
 
@@ -470,6 +460,7 @@ cdef class CythonLPSolveSolver:
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
+        self.aggregated_min_max = aggregated_min_max
 
     cpdef object solve(self, model):
         cdef int[:] scenario_combination
@@ -560,6 +551,12 @@ cdef class CythonLPSolveSolver:
                 ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
                 set_row_bnds(self.prob, self.idx_row_virtual_storages+col, lb, ub)
 
+        # update aggregated node min/max flow constraints
+        for col, agg_node in enumerate(self.aggregated_min_max):
+            min_flow = inf_to_dbl_max(agg_node.get_min_flow(scenario_index))
+            max_flow = inf_to_dbl_max(agg_node.get_max_flow(scenario_index))
+            set_row_bnds(self.prob, self.idx_row_aggregated_min_max+col, min_flow, max_flow)
+
         self.stats['bounds_update_storage'] += time.perf_counter() - t0
         t0 = time.perf_counter()
         # attempt to solve the linear programme
-- 
2.43.0


From 48b950f8a2d53997a3be1590b289360da8184e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 39/47] fix: output files left open by a reset without a
 finished run are closed before they are opened again

---
 pywr/recorders/_tables_recorders.pyx | 4 ++++
 pywr/recorders/recorders.py          | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index ca06fff..8c8cca8 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -215,6 +215,8 @@ class TablesRecorder2(Recorder):
         # The following dimensions are sized per scenario
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
+        # Close the file left open if the model was reset without finishing
+        self.h5store = None
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
@@ -383,6 +385,8 @@ class TablesRecorder2(Recorder):
         import tables
 
         mode = "r+"  # always need to append, as file already created in setup
+        # Close the file left open if the model was reset without finishing
+        self.h5store = None
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
 
         if self._buffer_num_timesteps > 1:
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index a7c0e18..1504de8 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -183,6 +183,10 @@ class CSVRecorder(Recorder):
     def reset(self):
         import csv
 
+        # Close the file left open if the model was reset without finishing
+        if self._fh:
+            self._fh.close()
+
         kwargs = {"newline": "", "encoding": "utf-8"}
         mode = "wt"
 
@@ -419,6 +423,8 @@ class TablesRecorder(Recorder):
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
 
+        # Close the file left open if the model was reset without finishing
+        self.h5store = None
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
@@ -549,6 +555,8 @@ class TablesRecorder(Recorder):
         import tables
 
         mode = "r+"  # always need to append, as file already created in setup
+        # Close the file left open if the model was reset without finishing
+        self.h5store = None
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
         self._arrays = {}
         for where, node in self._nodes:
-- 
2.43.0


From cb2183dbd49e51963f1d9aa1202e29b19c9e98ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 40/47] fix: name the aggregated node when its GLPK constraint
 cannot be created

---
 pywr/solvers/cython_glpk.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index daeff5d..46b1c66 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -1536,7 +1536,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 set_mat_row_safe(self.prob, row, length, ind, val)
                 set_row_bnds_safe(self.prob, row, GLP_FX, 0.0, 0.0)
             except GLPKError, GLPKInternalError:
-                logger.error(f"A GLPK error occurred during creation of aggregated node constraints for node: {storage}")
+                logger.error(f"A GLPK error occurred during creation of aggregated node constraints for node: {agg_node}")
                 raise
             finally:
                 free(ind)
-- 
2.43.0


From 51741bc3d679bd461e4ef9447b4777cd64ff7da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 41/47] fix: lpsolve bounds of a storage that is above its
 maximum or of fixed volume

---
 pywr/solvers/cython_lpsolve.pyx | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 3a895bc..2829661 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -531,24 +531,31 @@ cdef class CythonLPSolveSolver:
         # update storage node constraint
         for col, storage in enumerate(storages):
             max_volume = storage.get_max_volume(scenario_index)
-            avail_volume = max(storage._volume[scenario_index.global_id] - storage.get_min_volume(scenario_index), 0.0)
-            # change in storage cannot be more than the current volume or
-            # result in maximum volume being exceeded
-            lb = -avail_volume/timestep.days
-            ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
-            set_row_bnds(self.prob, self.idx_row_storages+col, lb, ub)
+            min_volume = storage.get_min_volume(scenario_index)
+            if max_volume == min_volume:
+                set_row_bnds(self.prob, self.idx_row_storages+col, 0.0, 0.0)
+            else:
+                avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
+                # change in storage cannot be more than the current volume or
+                # result in maximum volume being exceeded
+                lb = -avail_volume/timestep.days
+                ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
+                set_row_bnds(self.prob, self.idx_row_storages+col, lb, ub)
 
         # update virtual storage node constraint
         for col, storage in enumerate(virtual_storages):
-            if not storage.active:
+            max_volume = storage.get_max_volume(scenario_index)
+            min_volume = storage.get_min_volume(scenario_index)
+            if max_volume == min_volume:
+                set_row_bnds(self.prob, self.idx_row_virtual_storages+col, 0.0, 0.0)
+            elif not storage.active:
                 set_row_bnds(self.prob, self.idx_row_virtual_storages+col, -DBL_MAX, DBL_MAX)
             else:
-                max_volume = storage.get_max_volume(scenario_index)
-                avail_volume = max(storage._volume[scenario_index.global_id] - storage.get_min_volume(scenario_index), 0.0)
+                avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
                 # change in storage cannot be more than the current volume or
                 # result in maximum volume being exceeded
                 lb = -avail_volume/timestep.days
-                ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
+                ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
                 set_row_bnds(self.prob, self.idx_row_virtual_storages+col, lb, ub)
 
         # update aggregated node min/max flow constraints
-- 
2.43.0


From b44e5d7eee8ba41a76c10718cbf420b2139d096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:21 +0000
Subject: [PATCH 42/47] fix: disconnect compound nodes, storages and nodes that
 are not connected

---
 pywr/nodes.py | 59 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 19426fb..1209163 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -91,7 +91,7 @@ class Loadable:
 class Connectable(object):
     """A mixin class providing methods for connecting nodes in the model graph"""
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         """Returns the object(s) wich should be connected to given slot_name
 
         Overload this method when implementing compound nodes which have
@@ -145,27 +145,30 @@ class Connectable(object):
         if node is not None:
             self._disconnect(node, slot_name=slot_name, all_slots=all_slots)
         else:
-            neighbors = self.model.graph.neighbors(self)
-            for neighbor in [neighbor for neighbor in neighbors]:
-                self._disconnect(neighbor, slot_name=slot_name, all_slots=all_slots)
+            # The connections are held by the slots, which may be sub-nodes
+            for slot in self.iter_slots(is_connector=True, all_slots=True):
+                for neighbor in list(self.model.graph.neighbors(slot)):
+                    self.model.graph.remove_edge(slot, neighbor)
+            self.model.dirty = True
 
     def _disconnect(self, node, slot_name=None, all_slots=True):
         """As disconnect, except node argument is required"""
         disconnected = False
-        try:
-            self.model.graph.remove_edge(self, node)
-        except nx.exception.NetworkXError:
-            for node_slot in node.iter_slots(
-                slot_name=slot_name, is_connector=False, all_slots=all_slots
-            ):
-                try:
-                    self.model.graph.remove_edge(self, node_slot)
-                except nx.exception.NetworkXError:
-                    pass
-                else:
+        graph = self.model.graph
+        # The connections are held by the slots, which may be sub-nodes
+        for slot in self.iter_slots(is_connector=True, all_slots=True):
+            if graph.has_edge(slot, node):
+                node_slots = [node]
+            elif isinstance(node, Connectable):
+                node_slots = node.iter_slots(
+                    slot_name=slot_name, is_connector=False, all_slots=all_slots
+                )
+            else:
+                node_slots = []
+            for node_slot in node_slots:
+                if graph.has_edge(slot, node_slot):
+                    graph.remove_edge(slot, node_slot)
                     disconnected = True
-        else:
-            disconnected = True
         if not disconnected:
             raise nx.exception.NetworkXError(
                 "{} is not connected to {}".format(self, node)
@@ -390,8 +393,8 @@ class Storage(Loadable, Drawable, Connectable, _core.Storage, metaclass=NodeMeta
 
     def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
-            if not self.inputs:
-                raise StopIteration
+            if not self.inputs and not all_slots:
+                raise ValueError("{} does not have any inputs.".format(self))
             if slot_name is None:
                 if all_slots or len(self.inputs) == 1:
                     for node in self.inputs:
@@ -406,8 +409,8 @@ class Storage(Loadable, Drawable, Connectable, _core.Storage, metaclass=NodeMeta
                         "{} does not have slot: {}".format(self, slot_name)
                     )
         else:
-            if not self.outputs:
-                raise StopIteration
+            if not self.outputs and not all_slots:
+                raise ValueError("{} does not have any outputs.".format(self))
             if slot_name is None:
                 if all_slots or len(self.outputs) == 1:
                     for node in self.outputs:
@@ -887,7 +890,7 @@ class PiecewiseLink(Node):
 
     max_flows = property(**max_flows())
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
             yield self.input
         else:
@@ -1020,8 +1023,12 @@ class MultiSplitLink(PiecewiseLink):
             agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
             agg.factors = valid_factors
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
+            if slot_name is None and all_slots:
+                yield self.input
+                yield from self._extra_inputs
+                return
             i = self.slot_names.index(slot_name)
             if i == 0:
                 yield self.input
@@ -1191,7 +1198,7 @@ class BreakLink(Node):
     def get_all_cost(self, out=None):
         return self.link.get_all_cost(out)
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
             # connecting FROM the transfer TO something else
             yield self.link
@@ -1262,7 +1269,7 @@ class DelayNode(Node):
         )
         super().__init__(model, name, **kwargs)
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
             yield self.input
         else:
@@ -1406,7 +1413,7 @@ class LossLink(Node):
     def get_all_cost(self, out=None):
         return self.net.get_all_cost(out)
 
-    def iter_slots(self, slot_name=None, is_connector=True):
+    def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
         if is_connector:
             yield self.net
         else:
-- 
2.43.0


From 61ae07e41ff257ce9f0b3a7d0e0b49754ffef85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 43/47] fix: remove all sub-nodes of a compound node that is
 deleted from a model

---
 pywr/nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 1209163..720c4aa 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1020,7 +1020,9 @@ class MultiSplitLink(PiecewiseLink):
                     nodes.append(nd)
                     valid_factors.append(r)
 
-            agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
+            agg = AggregatedNode(
+                self.model, "{} Agg".format(self.name), nodes, parent=self
+            )
             agg.factors = valid_factors
 
     def iter_slots(self, slot_name=None, is_connector=True, all_slots=False):
@@ -1140,8 +1142,9 @@ class BreakLink(Node):
             max_volume=0,
             initial_volume=0,
             cost=0,
+            parent=self,
         )
-        self.link = Link(model, name=link_name)
+        self.link = Link(model, name=link_name, parent=self)
 
         self.storage.connect(self.link)
 
@@ -1329,7 +1332,9 @@ class LossLink(Node):
         self.gross.connect(self.output)
         self.gross.connect(self.net)
 
-        self.agg = AggregatedNode(model, name=agg_name, nodes=[self.net, self.output])
+        self.agg = AggregatedNode(
+            model, name=agg_name, nodes=[self.net, self.output], parent=self
+        )
         self.loss_factor_type = kwargs.pop("loss_factor_type", "net")
         self.loss_factor = kwargs.pop("loss_factor", 0.0)
 
-- 
2.43.0


From 4653de7e541d188835ceb27dfc1c9f93ed7716f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 44/47] fix: reject a model document with two nodes of the same
 name

---
 pywr/_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 23a4de8..064a4fe 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -409,6 +409,8 @@ class Model(object):
         nodes_to_load = {}
         for node_data in data["nodes"]:
             node_name = node_data["name"]
+            if node_name in nodes_to_load:
+                raise ValueError('A node with the name "{}" already exists.'.format(node_name))
             nodes_to_load[node_name] = node_data
         model._nodes_to_load = nodes_to_load
 
-- 
2.43.0


From 5ef4863c191623a06536bd200a3a9c2415d6df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 45/47] fix: count the first time step in the speed of a model
 result

---
 pywr/_model.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 064a4fe..36e242a 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -672,7 +672,7 @@ class Model(object):
         time_taken_with_overhead = t3 - t0
         num_scenarios = len(self.scenarios.combinations)
         try:
-            speed = (timestep.index * num_scenarios) / time_taken
+            speed = ((timestep.index + 1) * num_scenarios) / time_taken
         except ZeroDivisionError:
             speed = float('nan')
         result = ModelResult(
-- 
2.43.0


From e7fb3231f25192221815e1d0d112293751d4042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 46/47] fix: find a node before a sub-node of the same name,
 and allow iterating over nodes again

---
 pywr/_model.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 36e242a..0379c61 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -962,6 +962,10 @@ class NodeIterator(object):
 
     def __getitem__(self, key):
         """Get a node from the graph by it's name"""
+        for node in self._nodes():
+            if node.name == key:
+                return node
+        # sub-nodes, which are hidden by a node of the same name
         for node in self._nodes(hide_children=False):
             if node.name == key:
                 return node
@@ -1007,7 +1011,7 @@ class NodeIterator(object):
         return False
 
     def __iter__(self):
-        return self
+        return iter(list(self._nodes()))
 
     def __next__(self):
         return self.next()
-- 
2.43.0


From 0a2aa859318fe1bdb089f0bd2c2fcbac0e2d9c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:25 +0000
Subject: [PATCH 47/47] fix: MultiModel does not apply a relative document path
 twice to a sub-model given as data

---
 pywr/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/model.py b/pywr/model.py
index afd024d..35956dc 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -147,8 +147,10 @@ class MultiModel:
                     sub_model_filename, path=sub_model_path, solver=sub_model_solver
                 )
             elif sub_model_data is not None:
-                sub_model_path = sub_model_definition.get("path", path)
-                if path is not None:
+                sub_model_path = sub_model_definition.get("path", None)
+                if sub_model_path is None:
+                    sub_model_path = path
+                elif path is not None:
                     # a relative path is relative to this document
                     sub_model_path = os.path.join(path, sub_model_path)
 
-- 
2.43.0

