From 0404f44c90d25f25616b6d160ca2d22208592f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 01/56] fix: keep graph nodes sorted when MBQCircuit relabels
 them

nx.relabel_nodes keeps insertion order, but stacking, merging and the Lie
algebra routines use node labels as positions.
---
 mentpy/mbqc/mbqcircuit.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 389e841..87722b5 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -72,7 +72,17 @@ class MBQCircuit:
             N = graph.number_of_nodes()
             mapping = dict(zip(sorted(graph.nodes), range(N)))
             inv_mapping = dict(zip(range(N), sorted(graph.nodes)))
-            graph = nx.relabel_nodes(graph, mapping)
+            # build the relabelled graph with its nodes in increasing order, as node
+            # labels are also used as positions (e.g. when stacking circuits)
+            relabelled = graph.__class__()
+            relabelled.graph.update(graph.graph)
+            relabelled.add_nodes_from(
+                (mapping[v], graph.nodes[v]) for v in sorted(graph.nodes)
+            )
+            relabelled.add_edges_from(
+                (mapping[u], mapping[v], data) for u, v, data in graph.edges(data=True)
+            )
+            graph = relabelled
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-- 
2.43.0


From 45496bcf90bceae70842cfe9440be939aea41654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 02/56] fix: user-supplied flow and partial order recursed for
 ever

The relabelled closures called themselves instead of the given callables, the
result of check_if_flow was ignored, and gflow was left unset.
---
 mentpy/mbqc/mbqcircuit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 87722b5..6847c99 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -86,9 +86,11 @@ class MBQCircuit:
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-                flow = lambda x: mapping[flow(inv_mapping[x])]
+                user_flow = flow
+                flow = lambda x: mapping[user_flow(inv_mapping[x])]
             if partial_order is not None:
-                partial_order = lambda x, y: partial_order(
+                user_partial_order = partial_order
+                partial_order = lambda x, y: user_partial_order(
                     inv_mapping[x], inv_mapping[y]
                 )
             if measurement_order is not None:
@@ -149,10 +151,11 @@ class MBQCircuit:
             flow, partial_order, depth, layers = find_cflow(
                 graph, input_nodes, output_nodes
             )
-            self.gflow = Flow(graph, input_nodes, output_nodes)
 
-        elif (flow is not None) and (partial_order is not None):
-            check_if_flow(graph, input_nodes, output_nodes, flow, partial_order)
+        elif not check_if_flow(graph, input_nodes, output_nodes, flow, partial_order):
+            raise ValueError("The given flow does not satisfy the flow conditions.")
+
+        self.gflow = Flow(graph, input_nodes, output_nodes)
 
         self._flow = flow
         self._partial_order = partial_order
-- 
2.43.0


From f27ec2b491550261e5a2e1703cc1bea1a4496f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 03/56] fix: check_if_flow accepted flows that correct on an
 input node

An input node carries an arbitrary state, so it has no stabilizer to correct with.
---
 mentpy/mbqc/flow.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index a54dd99..d7aaed4 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -610,7 +610,8 @@ def check_if_flow(
         c1 = i in nfi
         c2 = partial_order(i, flow(i))
         c3 = math.prod([partial_order(i, k) for k in set(nfi) - {i}])
-        conds = conds * c1 * c2 * c3
+        c4 = flow(i) not in input_nodes
+        conds = conds * c1 * c2 * c3 * c4
         if not c1:
             print(f"Condition 1 failed for node {i}. {i} not in {nfi}")
         if not c2:
@@ -620,4 +621,6 @@ def check_if_flow(
             for k in set(nfi) - {i}:
                 if not partial_order(i, k):
                     print(f"{i} ≮ {k}")
+        if not c4:
+            print(f"Condition 4 failed for node {i}. {flow(i)} is an input node.")
     return conds
-- 
2.43.0


From a0ecdf7a3f30454c4d07e123209e528d1b3068f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 04/56] fix: copying, deep-copying or unpickling circuits and
 simulators recursed for ever

__getattr__ looked itself up through attributes that do not exist before the
state of the new object has been restored.
---
 mentpy/mbqc/mbqcircuit.py              | 6 ++++++
 mentpy/simulators/pattern_simulator.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 6847c99..8e1263a 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -180,6 +180,12 @@ class MBQCircuit:
 
     # if an attribute is not found, look for it in the graph
     def __getattr__(self, name):
+        # while copying or unpickling, the attributes looked up below do not exist yet
+        if name in ("_graph", "gflow") or (
+            name.startswith("__") and name.endswith("__")
+        ):
+            raise AttributeError(f"Attribute {name} not found in MBQCircuit.")
+
         # try getting the attribute in graph, if not there, look in gflow
         try:
             return getattr(self.graph, name)
diff --git a/mentpy/simulators/pattern_simulator.py b/mentpy/simulators/pattern_simulator.py
index a4e1796..538854d 100644
--- a/mentpy/simulators/pattern_simulator.py
+++ b/mentpy/simulators/pattern_simulator.py
@@ -70,6 +70,9 @@ class PatternSimulator:
         )
 
     def __getattr__(self, name):
+        # while copying or unpickling, the simulator does not exist yet
+        if name == "simulator" or (name.startswith("__") and name.endswith("__")):
+            raise AttributeError(f"Attribute {name} not found in PatternSimulator.")
         return getattr(self.simulator, name)
 
     def __call__(self, angles: List[float], **kwargs):
-- 
2.43.0


From c437ecb878080a3b7d3aa346d8c23105b24b4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 05/56] fix: find_cflow reported the largest node label as the
 depth

The depth is the largest layer; this also failed when every node is an output.
---
 mentpy/mbqc/flow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index d7aaed4..7e5a095 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -144,7 +144,8 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
 
-    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(flow.values()), ln
+    depth = max(ln.values(), default=0)
+    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], depth, ln
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-- 
2.43.0


From bf3ffc896c554d87968455bca69f0e46d5df2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 06/56] fix: find_gflow returned bare GF(2) vectors over an
 unspecified node order

The correction function now maps every measured node to its correction set.
---
 mentpy/mbqc/flow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 7e5a095..a117a00 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -225,10 +225,11 @@ def gflowaux(graph: GraphState, gamma, inputs, outputs, k, g, l) -> object:
     V = set(graph.nodes())
     C = set()
     vmol = list(V - outputs)
+    correctors = list(outputs - inputs)
     for u in vmol:
-        submatrix = np.zeros((len(vmol), len(outputs - inputs)), dtype=int)
+        submatrix = np.zeros((len(vmol), len(correctors)), dtype=int)
         for i, v in enumerate(vmol):
-            for j, w in enumerate(outputs - inputs):
+            for j, w in enumerate(correctors):
                 submatrix[i, j] = gamma[mapping[v], mapping[w]]
 
         b = np.zeros((len(vmol), 1), dtype=int)
@@ -240,7 +241,7 @@ def gflowaux(graph: GraphState, gamma, inputs, outputs, k, g, l) -> object:
         if np.linalg.norm(submatrix @ solution - b) <= 1e-5:
             l[u] = k
             C.add(u)
-            g[u] = solution
+            g[u] = {w for w, bit in zip(correctors, solution) if bit}
 
     if len(C) == 0:
         if set(outputs) == V:
-- 
2.43.0


From 5cf6053a99efc0ce7f8c9b2aa3e8cc4b6a5c7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 07/56] fix: the measurement order check was inverted

It rejected every order compatible with the partial order (including the
circuit's own) and accepted reversed ones. Orders must also contain every node
exactly once, and the constructor applies the same check.
---
 mentpy/mbqc/mbqcircuit.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 8e1263a..5623160 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -162,6 +162,9 @@ class MBQCircuit:
 
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
+        elif measurement_order is not None:
+            if not self._is_valid_order(measurement_order):
+                raise ValueError(f"Invalid measurement order {measurement_order}.")
 
         # in case we measure an output node
         quantum_output_nodes = [
@@ -315,10 +318,18 @@ class MBQCircuit:
     @measurement_order.setter
     def measurement_order(self, measurement_order: List[int]) -> None:
         r"""Set the measurement order of the MBQC circuit."""
-        if not _check_measurement_order(measurement_order, self.partial_order):
+        if not self._is_valid_order(measurement_order):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
         self._measurement_order = measurement_order
 
+    def _is_valid_order(self, order: List[int]) -> bool:
+        r"""Checks that order has every node once and follows the partial order."""
+        if len(order) != len(self.graph) or set(order) != set(self.graph.nodes):
+            return False
+        return self.partial_order is None or _check_measurement_order(
+            order, self.partial_order
+        )
+
     @cached_property
     def outputc(self) -> List:
         r"""Returns :math:`O^c`, the complement of output nodes."""
@@ -470,7 +481,7 @@ def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
     for i in range(len(measurement_order)):
         for j in range(i + 1, len(measurement_order)):
-            if partial_order(measurement_order[i], measurement_order[j]):
+            if partial_order(measurement_order[j], measurement_order[i]):
                 return False
     return True
 
-- 
2.43.0


From 73cabda46df7470e9c7b01c6b9155b330d93c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 08/56] fix: measurement orders moved inputs before nodes they
 depend on

Inputs were always moved to the front, so a byproduct landing on an already
measured input was lost. The numpy simulators, whose window starts with the
input state, do their own reordering.
---
 mentpy/mbqc/flow.py                  |  9 ++++++---
 mentpy/mbqc/mbqcircuit.py            |  9 ++++++---
 mentpy/simulators/np_simulator_dm.py | 11 +++++++----
 mentpy/simulators/np_simulator_sv.py | 11 +++++++----
 4 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index a117a00..ec0fef5 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -76,9 +76,12 @@ class Flow:
 
             # This can be optimized!!
             order = [item for sublist in self.layers for item in sublist]
-            for i in self.input_nodes[::-1]:
-                order.remove(i)
-                order.insert(0, i)
+            # measure the input nodes first, unless some of them depend on other nodes
+            inputs_first = list(self.input_nodes) + [
+                i for i in order if i not in self.input_nodes
+            ]
+            if all(layers[i] >= layers[j] for i, j in zip(inputs_first, inputs_first[1:])):
+                order = inputs_first
             self.measurement_order = order
         else:
             self.layers = None
diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 5623160..34d3c7e 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -445,9 +445,12 @@ class MBQCircuit:
 
         order = [item for sublist in sorted_labels for item in sublist]
 
-        for i in self.input_nodes[::-1]:
-            order.remove(i)
-            order.insert(0, i)
+        # measure the input nodes first, unless some of them depend on other nodes
+        inputs_first = self.input_nodes + [
+            i for i in order if i not in self.input_nodes
+        ]
+        if _check_measurement_order(inputs_first, self.partial_order):
+            return inputs_first
 
         return order
 
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index b01aae1..79fa0b3 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -50,13 +50,16 @@ class NumpySimulatorDM(BaseSimulator):
                 i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
-            # remove output nodes from the measurement order
-            self.schedule_measure = [
+            # the input state takes the first places of the window
+            self.schedule = mbqcircuit.input_nodes + [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.quantum_output_nodes
+                if i not in mbqcircuit.input_nodes
+            ]
+            # remove output nodes from the measurement order
+            self.schedule_measure = [
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
-            self.schedule = mbqcircuit.measurement_order
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index e7491f8..e43da55 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -64,13 +64,16 @@ class NumpySimulatorSV(BaseSimulator):
                 i for i in self.schedule if i not in mbqcircuit.output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
-            # remove output nodes from the measurement order
-            self.schedule_measure = [
+            # the input state takes the first places of the window
+            self.schedule = mbqcircuit.input_nodes + [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.output_nodes
+                if i not in mbqcircuit.input_nodes
+            ]
+            # remove output nodes from the measurement order
+            self.schedule_measure = [
+                i for i in self.schedule if i not in mbqcircuit.output_nodes
             ]
-            self.schedule = mbqcircuit.measurement_order
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
-- 
2.43.0


From 4aff6f11d5e35f503d8cc2bb60a839472cb7e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 09/56] fix: dependencies of controlled measurements were not
 respected

Conditions given to the constructor or with a bool condition were ignored or
crashed, removed controls left stale dependencies behind, and layers could
contradict the control dependencies. The order is now generated by the flow and
control dependencies, and contradictory controls are rejected.
---
 mentpy/mbqc/mbqcircuit.py | 85 +++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 34d3c7e..53eba07 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -144,7 +144,8 @@ class MBQCircuit:
                     )
 
         self._measurements = measurements
-        self._flow, self._partial_order = None, None
+        self._flow, self._flow_partial_order, self._partial_order = None, None, None
+        self._measurement_order = None
         self._update_attributes()
 
         if (flow is None) or (partial_order is None):
@@ -158,7 +159,8 @@ class MBQCircuit:
         self.gflow = Flow(graph, input_nodes, output_nodes)
 
         self._flow = flow
-        self._partial_order = partial_order
+        self._flow_partial_order = partial_order
+        self._update_partial_order()
 
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
@@ -205,14 +207,16 @@ class MBQCircuit:
         if not isinstance(value, Ment):
             raise ValueError(f"Value {value} is not a Measurement object.")
 
+        old_value = self._measurements.get(key)
         self._measurements[key] = value
 
         # self._update_attributes_key(key)
-        self._update_attributes()
-
-        if isinstance(value, ControlMent):
-            # recalculate measurement order
-            self._measurement_order = self.calculate_order()
+        try:
+            self._update_attributes()
+        except ValueError:
+            self._measurements[key] = old_value
+            self._update_attributes()
+            raise
 
     def __getitem__(self, key):
         r"""Return the value of the measurement of the node with index key."""
@@ -382,24 +386,26 @@ class MBQCircuit:
         self._quantum_output_nodes = quantum_outputs
         self._classical_output_nodes = classical_outputs
 
-        # update measurement order
-
-        # make artificial graph for new flow with controls
-        # if len(self.controlled_nodes) > 0:
-        #     artificial_graph = self.graph
-        #     for nodei in self.controlled_nodes:
-        #         new_edges = [(nodei, v) for v in self.measurements[nodei].condition.cond_nodes]
-        #         artificial_graph.add_edges_from(new_edges)
-
-        #     flow, partial_order, depth = find_cflow(artificial_graph, self.input_nodes, self.output_nodes)
-        #     self._flow = flow
-        #     self._partial_order = partial_order
-        #     self._depth = depth
+        self._update_partial_order()
+        if self._measurement_order is not None and not self._is_valid_order(
+            self._measurement_order
+        ):
+            self._measurement_order = self.calculate_order()
 
-        if self._partial_order is not None:
-            old_partial_order = self._partial_order
+    def _update_partial_order(self) -> None:
+        r"""Updates the partial order with the dependencies of the controlled nodes."""
+        controls = [
+            (cond_node, node)
+            for node in self.controlled_nodes
+            for cond_node in getattr(
+                self.measurements[node].condition, "cond_nodes", ()
+            )
+        ]
+        if self.flow is None or len(controls) == 0:
+            self._partial_order = self._flow_partial_order
+        else:
             self._partial_order = _create_new_partial_order(
-                self.controlled_nodes, self.measurements, old_partial_order
+                self.graph, self.outputc, self.flow, controls
             )
 
     def _update_attributes_key(self, key) -> None:
@@ -644,22 +650,21 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
 
-def _create_new_partial_order(controlled_nodes, measurements, old_partial_order):
-    def new_partial_order(i, j):
-        for c in controlled_nodes:
-            cns = measurements[c].condition.cond_nodes
-
-            ibeforecns = any([old_partial_order(i, cn) for cn in cns]) or i in cns
-            jafterc = old_partial_order(c, j) or j == c
-            # print(f"Comparing {i} and {j}")
-            # print(any([old_partial_order(i, cn) for cn in cns]), i in cns)
-            # print(old_partial_order(c, j), j == c)
-            if ibeforecns and jafterc and i != j:
-                return True
-
-            if j in cns and i == c:
-                return False
+def _create_new_partial_order(graph, outputc, flow, controls):
+    r"""Partial order generated by the flow and the dependencies of controlled nodes"""
+    dependencies = nx.DiGraph()
+    dependencies.add_nodes_from(graph.nodes())
+    dependencies.add_edges_from(controls)
+    for node in outputc:
+        dependencies.add_edge(node, flow(node))
+        dependencies.add_edges_from(
+            (node, k) for k in graph.neighbors(flow(node)) if k != node
+        )
 
-        return old_partial_order(i, j)
+    if not nx.is_directed_acyclic_graph(dependencies):
+        raise ValueError(
+            "The controlled measurements are not compatible with the flow of the circuit."
+        )
 
-    return new_partial_order
+    after = {node: nx.descendants(dependencies, node) for node in dependencies}
+    return lambda i, j: j in after[i]
-- 
2.43.0


From 69638ec94e4afb436acd74544c47e5cc7aad6568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 10/56] fix: quantum outputs followed the order of the
 measurements dictionary

The simulators returned the output qubits in that order instead of the order of
output_nodes, and deleting a measurement did not update the circuit.
---
 mentpy/mbqc/mbqcircuit.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 53eba07..2326437 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -168,11 +168,6 @@ class MBQCircuit:
             if not self._is_valid_order(measurement_order):
                 raise ValueError(f"Invalid measurement order {measurement_order}.")
 
-        # in case we measure an output node
-        quantum_output_nodes = [
-            node for node, i in self.measurements.items() if i is None
-        ]
-        self._quantum_output_nodes = quantum_output_nodes
         self._measurement_order = measurement_order
 
     def __repr__(self) -> str:
@@ -232,6 +227,7 @@ class MBQCircuit:
             raise ValueError(f"Node {key} is not in the graph.")
 
         self._measurements[key] = None
+        self._update_attributes()
 
     @property
     def measurements(self) -> Dict[int, Ment]:
@@ -360,8 +356,6 @@ class MBQCircuit:
         trainable_nodes = []
         controlled_nodes = []
         planes = {}
-        quantum_outputs = []
-        classical_outputs = []
         for nodei, menti in self._measurements.items():
             if menti is not None:
                 if isinstance(menti, ControlMent):
@@ -373,18 +367,21 @@ class MBQCircuit:
                 planes[nodei] = menti.plane
                 self._measurements[nodei] = copy.deepcopy(menti)
                 self._measurements[nodei].node_id = nodei
-                if nodei in self._output_nodes:
-                    classical_outputs.append(nodei)
             else:
                 planes[nodei] = ""
-                if nodei in self._output_nodes:
-                    quantum_outputs.append(nodei)
 
         self._trainable_nodes = trainable_nodes
         self._controlled_nodes = controlled_nodes
         self._planes = planes
-        self._quantum_output_nodes = quantum_outputs
-        self._classical_output_nodes = classical_outputs
+        # unmeasured nodes are quantum outputs, and output nodes keep their order
+        self._quantum_output_nodes = [
+            node
+            for node in self._output_nodes + self.outputc
+            if self._measurements[node] is None
+        ]
+        self._classical_output_nodes = [
+            node for node in self._output_nodes if self._measurements[node] is not None
+        ]
 
         self._update_partial_order()
         if self._measurement_order is not None and not self._is_valid_order(
-- 
2.43.0


From 21d02708026a421543583c3e0f95e5160e95c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 11/56] fix: the measurements setter rejected unmeasured nodes
 and dropped missing ones

It now follows the rules of the constructor, leaves the given dictionary alone,
and keeps the circuit as it was when the new measurements are rejected.
---
 mentpy/mbqc/mbqcircuit.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 2326437..32304af 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -137,11 +137,7 @@ class MBQCircuit:
                 )
 
             # set X Ment in outputc nodes that are not in measurements
-            for node in self.graph.nodes:
-                if node not in measurements:
-                    measurements[node] = (
-                        self._default_measurement if node in self.outputc else None
-                    )
+            measurements = self._fill_measurements(measurements)
 
         self._measurements = measurements
         self._flow, self._flow_partial_order, self._partial_order = None, None, None
@@ -239,12 +235,28 @@ class MBQCircuit:
         r"""Set the measurements of the MBQC circuit."""
         if not all([v in self.graph.nodes for v in measurements.keys()]):
             raise ValueError(f"Nodes {measurements.keys()} are not in the graph.")
-        if not all([isinstance(v, Ment) for v in measurements.values()]):
+        if not all([isinstance(v, Ment) or v is None for v in measurements.values()]):
             raise ValueError(
                 f"Values {measurements.values()} are not Measurement objects."
             )
-        self._measurements = measurements
-        self._update_attributes()
+        old_measurements = self._measurements
+        self._measurements = self._fill_measurements(measurements)
+        try:
+            self._update_attributes()
+        except ValueError:
+            self._measurements = old_measurements
+            self._update_attributes()
+            raise
+
+    def _fill_measurements(self, measurements: Dict[int, Ment]) -> Dict[int, Ment]:
+        r"""Sets the default measurement in the nodes that are not in measurements."""
+        measurements = dict(measurements)
+        for node in self.graph.nodes:
+            if node not in measurements:
+                measurements[node] = (
+                    self._default_measurement if node in self.outputc else None
+                )
+        return measurements
 
     @property
     def graph(self) -> GraphState:
-- 
2.43.0


From c45e9aa757c5329bf38f84acee4246a1f7cb46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 12/56] fix: adding edges to a circuit lost its measurements

add_edge reset every measurement (and a failure removed edges that were already
there), and add_edges_from always failed as it passed the flow as measurements.
---
 mentpy/mbqc/mbqcircuit.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 32304af..5c7611e 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -471,29 +471,31 @@ class MBQCircuit:
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
-        self.graph.add_edge(u, v)
-        # try resetting self with new graph, if it fails, remove the edge
         try:
-            self.__init__(self.graph, self.input_nodes, self.output_nodes)
+            self._reset_graph([(u, v)])
         except Exception as e:
-            self.graph.remove_edge(u, v)
             raise ValueError(f"Cannot add edge between {u} and {v}.\n" + str(e))
 
     def add_edges_from(self, edges, **kwargs):
         r"""Adds edges from a list of tuples"""
-        new_graph = self.graph.copy()
-        new_graph.add_edges_from(edges, **kwargs)
         try:
-            self.__init__(
-                new_graph,
-                self.input_nodes,
-                self.output_nodes,
-                self.flow,
-                self.partial_order,
-            )
+            self._reset_graph(edges, **kwargs)
         except Exception as e:
             raise ValueError(f"Cannot add edges {edges}.\n" + str(e))
 
+    def _reset_graph(self, edges, **kwargs):
+        r"""Resets self with the new edges, keeping the measurements"""
+        new_graph = self.graph.copy()
+        new_graph.add_edges_from(edges, **kwargs)
+        new_circuit = MBQCircuit(
+            new_graph,
+            self.input_nodes,
+            self.output_nodes,
+            measurements=self.measurements,
+            default_measurement=self._default_measurement,
+        )
+        self.__dict__ = new_circuit.__dict__
+
 
 def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
-- 
2.43.0


From 6b58f3678fab8f878303e6a9aec4d61129f37cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 13/56] fix: PennyLane backend used angles in the wrong order
 when every node is trainable

Angles come in the order of trainable_nodes, but the circuit reads them in the
order of outputc, so they have to be mapped in every case.
---
 mentpy/simulators/pennylane_simulator.py | 35 +++++++++++-------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 298f0cf..7207c62 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -65,26 +65,23 @@ class PennylaneSimulator(BaseSimulator):
 
         extended_angles = []
 
-        if len(self.mbqcircuit.trainable_nodes) != len(self.mbqcircuit.outputc):
-            for i in self.mbqcircuit.outputc:
-                if i in self.mbqcircuit.trainable_nodes:
-                    angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+        for i in self.mbqcircuit.outputc:
+            if i in self.mbqcircuit.trainable_nodes:
+                angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+            else:
+                plane = self.mbqcircuit.planes[i]
+                if plane == "X":
+                    angle = 0
+                elif plane == "Y":
+                    angle = np.pi / 2
+                elif plane == "XY":
+                    angle = self.mbqcircuit[i].angle
                 else:
-                    plane = self.mbqcircuit.planes[i]
-                    if plane == "X":
-                        angle = 0
-                    elif plane == "Y":
-                        angle = np.pi / 2
-                    elif plane == "XY":
-                        angle = self.mbqcircuit[i].angle
-                    else:
-                        raise ValueError(
-                            f"Plane {plane} is not supported for pennylane simulator."
-                        )
-
-                extended_angles.append(angle)
-        else:
-            extended_angles = angles
+                    raise ValueError(
+                        f"Plane {plane} is not supported for pennylane simulator."
+                    )
+
+            extended_angles.append(angle)
 
         return self.circuit(extended_angles, st=self.input_state, **kwargs)
 
-- 
2.43.0


From 5ddd29588737ecd08661f1c36795f30bb7e94c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 14/56] fix: partial trace of pure states summed amplitudes,
 which can cancel

Tracing out a qubit in a state orthogonal to |+> gave NaN or rounding noise, so
the state-vector simulator failed for measurement angles close to pi.
---
 mentpy/calculator/state_ops.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mentpy/calculator/state_ops.py b/mentpy/calculator/state_ops.py
index a978593..41719a9 100644
--- a/mentpy/calculator/state_ops.py
+++ b/mentpy/calculator/state_ops.py
@@ -65,13 +65,13 @@ def partial_trace_pure_state(psi, indices):
     """
     num_qubits = int(np.log2(psi.shape[0]))
     remaining_qubits = sorted(set(range(num_qubits)) - set(indices))
-    tensor = psi.reshape([2] * num_qubits).transpose(remaining_qubits + indices)
-    traced_tensor = tensor.reshape([-1] + [2] * len(indices)).sum(
-        axis=tuple(range(1, 1 + len(indices)))
-    )
-    traced_tensor = traced_tensor.reshape(-1)
-    traced_tensor /= np.linalg.norm(traced_tensor)
-    return traced_tensor
+    tensor = psi.reshape([2] * num_qubits).transpose(remaining_qubits + list(indices))
+    # every column is proportional to the state of the remaining qubits; use the
+    # first one that is not negligible (their sum can vanish)
+    columns = tensor.reshape(-1, 2 ** len(indices))
+    norms = np.linalg.norm(columns, axis=0)
+    column = np.argmax(norms > norms.max() / 2)
+    return columns[:, column] / norms[column]
 
 
 def partial_trace_mixed_state(rho, indices):
-- 
2.43.0


From 8c8dc27ed61f245191efb0cac81c9badaf735f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 15/56] fix: swap_qubits flipped the qubits, and swap_ij of a
 qubit with itself was not the identity

---
 mentpy/operators/gates.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/mentpy/operators/gates.py b/mentpy/operators/gates.py
index af9d58b..a074c7b 100644
--- a/mentpy/operators/gates.py
+++ b/mentpy/operators/gates.py
@@ -39,24 +39,7 @@ def swap_qubits(state_vector, i, j):
 
     n_qubits = int(np.log2(len(state_vector)))
 
-    swap_matrix = np.zeros((2, 2), dtype=int)
-    swap_matrix[0, 1] = swap_matrix[1, 0] = 1
-
-    identity = np.identity(2)
-    swap_operator = None
-    for k in range(n_qubits):
-        if k == i or k == j:
-            current_operator = swap_matrix
-        else:
-            current_operator = identity
-
-        if swap_operator is None:
-            swap_operator = current_operator
-        else:
-            swap_operator = np.kron(swap_operator, current_operator)
-
-    swapped_state_vector = swap_operator @ state_vector
-    return swapped_state_vector
+    return swap_ij(i, j, n_qubits) @ state_vector
 
 
 def arbitrary_qubit_gate(u, i, n):
@@ -77,6 +60,8 @@ def swap_ij(i, j, n):
     Generate the swap operator for qubits i and j in a system of n qubits
     """
     assert i < n and j < n
+    if i == j:
+        return np.eye(2**n)
     op1, op2, op3, op4 = np.ones(4)
     for k in range(n):
         if k == i or k == j:
-- 
2.43.0


From 0da68a62a28230e618005e688570f892f3450a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 16/56] fix: numpy simulators gave wrong results when the
 window was too small

The default window (inputs + 1) was not always enough, windows as large as the
circuit were refused, the measured qubit was not always the first of the window
(inputs that are also outputs, measured outputs), and the state-vector simulator
used node labels as qubit indices for measured outputs.
---
 mentpy/simulators/np_simulator_dm.py | 75 +++++++++++++-----------
 mentpy/simulators/np_simulator_sv.py | 85 ++++++++++++++--------------
 2 files changed, 86 insertions(+), 74 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 79fa0b3..3b4eb10 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -60,13 +60,17 @@ class NumpySimulatorDM(BaseSimulator):
             self.schedule_measure = [
                 i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
-            if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
+        if self.window_size == 1:
+            self.window_size = min(
+                max(len(mbqcircuit.input_nodes) + 1, self.minimum_window_size()),
+                len(self.schedule),
+            )
+
         input_state = self.reorder_qubits(
             input_state,
             self.mbqcircuit.input_nodes,
@@ -82,9 +86,15 @@ class NumpySimulatorDM(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
+            )
+
+        if not self.dev_mode and self.window_size < self.minimum_window_size():
+            raise ValueError(
+                f"Window size is set to {self.window_size}, but the schedule needs at least {self.minimum_window_size()}:"
+                " all neighbors of a node must be simulated before the node is measured."
             )
 
         self.current_measurement = 0
@@ -100,8 +110,7 @@ class NumpySimulatorDM(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -119,12 +128,21 @@ class NumpySimulatorDM(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
+
+    def minimum_window_size(self) -> int:
+        """Returns the smallest window in which every node is measured after all its
+        neighbors have been entangled with it."""
+        position = {node: i for i, node in enumerate(self.schedule)}
+        window = max(
+            len(self.mbqcircuit.input_nodes),
+            len(self.schedule) - len(self.schedule_measure),
+        )
+        for measured, node in enumerate(self.schedule_measure):
+            neighbors = list(nx.neighbors(self.mbqcircuit.graph, node))
+            last = max(position[i] for i in [node] + neighbors)
+            window = max(window, last + 1 - measured)
+        return window
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
@@ -156,10 +174,9 @@ class NumpySimulatorDM(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -187,21 +204,16 @@ class NumpySimulatorDM(BaseSimulator):
 
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
-
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
         ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
             self.qstate = np.kron(self.qstate, calc.pure2density(qubit_plus))
             new_qubit = self.current_simulated_nodes()[-1]
 
@@ -267,9 +279,7 @@ class NumpySimulatorDM(BaseSimulator):
                 self.qstate, outcome = self.measure(angle, mode)
                 self.outcomes[node] = outcome
 
-        current_output_order = [
-            i for i in self.schedule if i not in self.schedule_measure
-        ]
+        current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
@@ -304,8 +314,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate = self.initial_czs @ self.qstate @ np.conj(self.initial_czs).T
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False, mode="sample"):
         """
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index e43da55..74345d7 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -61,7 +61,7 @@ class NumpySimulatorSV(BaseSimulator):
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
             # the input state takes the first places of the window
@@ -72,15 +72,19 @@ class NumpySimulatorSV(BaseSimulator):
             ]
             # remove output nodes from the measurement order
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
-            if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
+        if self.window_size == 1:
+            self.window_size = min(
+                max(len(mbqcircuit.input_nodes) + 1, self.minimum_window_size()),
+                len(self.schedule),
+            )
+
         input_state = self.reorder_qubits(
             input_state,
             self.mbqcircuit.input_nodes,
@@ -96,9 +100,15 @@ class NumpySimulatorSV(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
+            )
+
+        if not self.dev_mode and self.window_size < self.minimum_window_size():
+            raise ValueError(
+                f"Window size is set to {self.window_size}, but the schedule needs at least {self.minimum_window_size()}:"
+                " all neighbors of a node must be simulated before the node is measured."
             )
 
         self.current_measurement = 0
@@ -114,8 +124,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -132,12 +141,21 @@ class NumpySimulatorSV(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
+
+    def minimum_window_size(self) -> int:
+        """Returns the smallest window in which every node is measured after all its
+        neighbors have been entangled with it."""
+        position = {node: i for i, node in enumerate(self.schedule)}
+        window = max(
+            len(self.mbqcircuit.input_nodes),
+            len(self.schedule) - len(self.schedule_measure),
+        )
+        for measured, node in enumerate(self.schedule_measure):
+            neighbors = list(nx.neighbors(self.mbqcircuit.graph, node))
+            last = max(position[i] for i in [node] + neighbors)
+            window = max(window, last + 1 - measured)
+        return window
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
@@ -169,10 +187,9 @@ class NumpySimulatorSV(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -195,21 +212,16 @@ class NumpySimulatorSV(BaseSimulator):
         self.current_measurement += 1
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
-
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
         ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
             self.qstate = np.kron(self.qstate, qubit_plus)
 
             new_qubit = self.current_simulated_nodes()[-1]
@@ -278,18 +290,10 @@ class NumpySimulatorSV(BaseSimulator):
                 self.qstate, outcome = self.measure(angle)
                 self.outcomes[node] = outcome
 
-        # check if output nodes have a measurement, if so, measure them
-        for i in self.mbqcircuit.output_nodes:
-            if isinstance(self.mbqcircuit[i], Ment):
-                self.qstate, outcome = self.measure_ment(
-                    self.mbqcircuit[i], self.mbqcircuit[i].angle, i, force0=self.force0
-                )
-                self.outcomes[i] = outcome
-
         current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
-                self.qstate, current_output_order, self.mbqcircuit.output_nodes
+                self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
@@ -319,8 +323,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False):
         """
-- 
2.43.0


From 818d959cb9d3ec95ce246c65a3d30148034f8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 17/56] fix: PennyLane backend silently ignored measurements it
 does not support

Measured outputs were left unmeasured, and trainable XZ or YZ measurements were
performed in the XY plane.
---
 mentpy/simulators/pennylane_simulator.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 7207c62..0f2da6d 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -52,6 +52,17 @@ class PennylaneSimulator(BaseSimulator):
                 "Controlled nodes are not supported with the PennyLane simulator."
             )
 
+        if len(mbqcircuit.classical_output_nodes) > 0:
+            raise NotImplementedError(
+                "Measured output nodes are not supported with the PennyLane simulator."
+            )
+
+        for node in mbqcircuit.outputc:
+            if mbqcircuit.planes[node] not in ["X", "Y", "XY"]:
+                raise ValueError(
+                    f"Plane {mbqcircuit.planes[node]} is not supported for pennylane simulator."
+                )
+
     def measure(self, angle: float, plane: str = "XY"):
         raise NotImplementedError
 
-- 
2.43.0


From acde1701db03eec756280b05264ad711532bf23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 18/56] fix: PennyLane backend failed when run was given an
 input state

---
 mentpy/simulators/pennylane_simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 0f2da6d..773183a 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -66,7 +66,12 @@ class PennylaneSimulator(BaseSimulator):
     def measure(self, angle: float, plane: str = "XY"):
         raise NotImplementedError
 
-    def run(self, angles: List[float], **kwargs) -> Tuple[List[int], np.ndarray]:
+    def run(
+        self, angles: List[float], input_state=None, **kwargs
+    ) -> Tuple[List[int], np.ndarray]:
+        if input_state is not None:
+            self.reset(input_state=input_state)
+
         if len(angles) != len(self.mbqcircuit.trainable_nodes):
             raise ValueError(
                 f"Number of angles ({len(angles)}) does not match number of trainable nodes ({len(self.mbqcircuit.trainable_nodes)})."
-- 
2.43.0


From 51c3bc187ec1d0bcd71dbafe86192714922f8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 19/56] fix: damping noise of the PennyLane backend failed

The damping channels take a rate called gamma instead of p.
---
 mentpy/simulators/pennylane_simulator.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 773183a..f72f9b4 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -44,6 +44,7 @@ class PennylaneSimulator(BaseSimulator):
             kwargs.pop("device", "default.qubit"),
             kwargs.pop("circuit_noise", None),
             p=kwargs.pop("p", 0),
+            gamma=kwargs.pop("gamma", None),
         )
         super().__init__(mbqcircuit, input_state)
 
@@ -108,9 +109,11 @@ class PennylaneSimulator(BaseSimulator):
 
 
 def mbqcircuit_to_circuit(
-    gsc, device="default.qubit", circuit_noise=None, *args, **kwargs
+    gsc, device="default.qubit", circuit_noise=None, p=0, gamma=None
 ):
     """Converts a MBQCircuit to a PennyLane circuit."""
+    # damping rate of the damping channels, which is p unless given
+    gamma = p if gamma is None else gamma
     gr = gsc.graph
     N = gr.number_of_nodes()
     dev = qml.device(device, wires=N)
@@ -136,15 +139,15 @@ def mbqcircuit_to_circuit(
         if circuit_noise is not None:
             for i in range(N):
                 if circuit_noise == "depolarizing":
-                    qml.DepolarizingChannel(wires=i, *args, **kwargs)
+                    qml.DepolarizingChannel(p, wires=i)
                 elif circuit_noise == "amplitude_damping":
-                    qml.AmplitudeDamping(wires=i, *args, **kwargs)
+                    qml.AmplitudeDamping(gamma, wires=i)
                 elif circuit_noise == "phase_damping":
-                    qml.PhaseDamping(wires=i, *args, **kwargs)
+                    qml.PhaseDamping(gamma, wires=i)
                 elif circuit_noise == "phase_flip":
-                    qml.PhaseFlip(wires=i, *args, **kwargs)
+                    qml.PhaseFlip(p, wires=i)
                 elif circuit_noise == "generalized_amplitude_damping":
-                    qml.GeneralizedAmplitudeDamping(wires=i, *args, **kwargs)
+                    qml.GeneralizedAmplitudeDamping(gamma, p, wires=i)
                 else:
                     raise ValueError(f"Unrecognized circuit noise: {circuit_noise}")
 
@@ -152,9 +155,9 @@ def mbqcircuit_to_circuit(
             x for x in gsc.measurement_order if (x not in gsc.output_nodes)
         ]
         for indx in topord_no_output:
-            p = param[gsc.outputc.index(indx)]
+            angle = param[gsc.outputc.index(indx)]
 
-            qml.RZ(-p, wires=indx)
+            qml.RZ(-angle, wires=indx)
             qml.Hadamard(wires=indx)
             m_0 = qml.measure(indx)
             qml.cond(m_0, qml.PauliX)(wires=gsc.flow(indx))
-- 
2.43.0


From 2a6690f8e2a93838d00a5b800e9ed767d81835b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 20/56] fix: parameter-shift gradients and Hessians were scaled
 by the wrong factor

Rotations are exact for any shift when dividing by 2 sin(shift), not 2 shift.
---
 mentpy/gradients/_parameter_shift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/gradients/_parameter_shift.py b/mentpy/gradients/_parameter_shift.py
index 30da5b4..105cdd5 100644
--- a/mentpy/gradients/_parameter_shift.py
+++ b/mentpy/gradients/_parameter_shift.py
@@ -21,7 +21,7 @@ def psr_gradient(cost, x, shift=1.5):
     for i in range(len(x)):
         grad[i] = (
             cost(x + shift * np.eye(len(x))[i]) - cost(x - shift * np.eye(len(x))[i])
-        ) / (2 * shift)
+        ) / (2 * np.sin(shift))
     return grad
 
 
@@ -44,5 +44,5 @@ def psr_hessian(cost, x, shift=1.5):
                 - cost(x + shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
                 - cost(x - shift * np.eye(len(x))[i] + shift * np.eye(len(x))[j])
                 + cost(x - shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
-            ) / (4 * shift**2)
+            ) / (4 * np.sin(shift) ** 2)
     return hess
-- 
2.43.0


From 1359e0c9d7c9d601761e0b039619c057546cada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 21/56] fix: RCDOptimizer overwrote the initial point, and did
 not move integer ones

Every iterate, including those given to the callback, was the same array.
---
 mentpy/optimizers/rcd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index c51b93b..f2b8381 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -41,6 +41,7 @@ class RCDOptimizer(BaseOptimizer):
     def step(self, f, x, i, **kwargs):
         """Take a step using the random coordinate descent optimizer."""
         coord_idx = random.randint(0, len(x) - 1)
+        x = np.array(x, dtype=float)
         delta = np.zeros_like(x)
         delta[coord_idx] = 1e-5
         partial_gradient = (f(x + delta) - f(x - delta)) / (2 * delta[coord_idx])
@@ -80,6 +81,7 @@ class RCDOptimizer(BaseOptimizer):
             # Random coordinate descent optimizer
             coord_idx = random.randint(0, len(x) - 1)
             coord_iters[coord_idx] += 1
+            x = np.array(x, dtype=float)
             delta = np.zeros_like(x)
             delta[coord_idx] = 1e-5
             partial_gradient = (f(x + delta) - f(x - delta)) / (2 * delta[coord_idx])
-- 
2.43.0


From 742f1040bfc2b1a95b269efdf47e8caa6c1b9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 22/56] fix: negated measurement outcomes forgot the nodes they
 depend on

---
 mentpy/operators/ment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 722123b..bbfa483 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -117,7 +117,9 @@ class MentOutcome:
         return self._binary_operation(lambda x, y: x ^ y, other)
 
     def __invert__(self):
-        return MentOutcome(lambda x: not self._outcome(x))
+        return MentOutcome(
+            lambda x: not self._outcome(x), cond_nodes=self._cond_nodes
+        )
 
 
 class Ment:
-- 
2.43.0


From b516808cddb09a4f1726334895e3ccbeae2af5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 23/56] fix: simulating controlled measurements with fixed
 branches failed

Copies replaced a bool condition by a function, branches with a fixed angle
rejected the angle of the other branch, the simulator used a bound method as the
angle, and post-selected controlled Z measurements.
---
 mentpy/operators/controlled_ment.py  |  8 +-------
 mentpy/simulators/np_simulator_dm.py | 12 ++++++++++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index aa0b13e..6f70a9e 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -80,7 +80,7 @@ class ControlMent(Ment):
 
     def copy(self):
         return ControlMent(
-            self.condition,
+            self._condition,
             self._true_ment.angle,
             self._true_ment.plane,
             self._angle,
@@ -103,11 +103,5 @@ class ControlMent(Ment):
             else:
                 return super().matrix()
 
-    def get_povm(self, angle: float | None = None, *args, **kwargs):
-        if self.condition(*args, **kwargs):
-            return self._true_ment.get_povm(angle, *args, **kwargs)
-        else:
-            return super().get_povm(angle, *args, **kwargs)
-
 
 ControlledMent = ControlMent
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 3b4eb10..1d3278f 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -246,6 +246,8 @@ class NumpySimulatorDM(BaseSimulator):
             for i in self.schedule_measure:
                 if i in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+                elif isinstance(self.mbqcircuit[i], ControlledMent):
+                    angle = None
                 else:
                     angle = self.mbqcircuit[i].angle
 
@@ -273,6 +275,8 @@ class NumpySimulatorDM(BaseSimulator):
                     if isinstance(self.mbqcircuit[node], ControlledMent):
                         cond_angle = self.mbqcircuit[node].angle(self.outcomes) or angle
                         angle = cond_angle
+                elif isinstance(self.mbqcircuit[node], ControlledMent):
+                    angle = None
                 elif isinstance(self.mbqcircuit[node], Ment):
                     angle = self.mbqcircuit[node].angle
 
@@ -336,9 +340,13 @@ class NumpySimulatorDM(BaseSimulator):
         prob0 = np.real(np.trace(self.qstate @ p0_extended))
         prob1 = np.real(np.trace(self.qstate @ p1_extended))
 
-        COND = (mode == "expectation" or mode == "exp") and ment.plane == "Z"
+        plane = ment.plane
+        if isinstance(ment, ControlledMent):
+            plane = ment.plane(self.outcomes)
 
-        if not force0 or ment.plane == "Z":
+        COND = (mode == "expectation" or mode == "exp") and plane == "Z"
+
+        if not force0 or plane == "Z":
             if COND:
                 outcome = prob1 / (prob0 + prob1)
             else:
-- 
2.43.0


From 53b6fbb7bec35b274a1edc8a40cf7c073564c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 24/56] fix: are_lc_equivalent always failed, and its search
 missed equivalent graphs

Sparse adjacency matrices broke the constraint system, graphs themselves (as used
by lc_cluster_flowspace) were not accepted, nodes were compared by insertion
order, and sums of two distinct basis vectors do not always contain a solution.
---
 mentpy/utils/lc_equivalence.py | 83 +++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 65dcd55..3a9eed5 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -3,6 +3,8 @@
 TAKEN FROM: https://github.com/XanaduAI/flamingpy/blob/main/flamingpy/utils/linalg.py
 """
 
+from itertools import product
+
 import numpy as np
 import networkx as nx
 
@@ -103,7 +105,7 @@ def nullspace_basis(M):
 
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
-     Search through sums of pairs of basis vectors of the nullspace and
+     Search through the vectors of the nullspace, one qubit at a time, and
      see if any satisfy the determinant constraints. If no solution is found,
      output None. If a solution is found, return a vector specifying the local
      Clifford in the form:
@@ -114,45 +116,40 @@ def search_nullspace(basis):
     Returns:
         NoneType or numpy.array: None if no solution, or the solution array.
     """
-    # number of basis vectors of null space
-    d = basis.shape[0]
     # number of nodes/qubits
     n = int(basis.shape[1] / 4)
-    # boolean for LC equivalence
-    equivalent = False
-    # array to store potential solutions
-    sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
-            # boolean for checking solution constraints
-            sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
-            # store potential solution
-            sols.append(sol)
-            for k in range(n):
-                # check the determinants (modulo 2)
-                det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2
-                if det != 1:
-                    # constraints not satisfied
-                    sat = False
-                    # remove the false solution
-                    sols.pop()
-                    break
-            # if solution found, set equivalent to True
-            if sat:
-                # equivalence is satisfied
-                equivalent = sat
-                break
-        # end search loop
-        if equivalent:
-            break
+    # reduce the basis with the columns of each qubit next to each other, so that the
+    # columns of a qubit only depend on the pivots of that qubit and the previous ones
+    order = [k + i * n for k in range(n) for i in range(4)]
+    rows, rank = reduce_RREform_mod2(basis[:, order].astype(int))
+    pivots = [np.nonzero(row)[0][0] for row in rows[:rank]]
+    rows_of_qubit = [
+        [row for row, pivot in zip(rows, pivots) if pivot // 4 == k] for k in range(n)
+    ]
+
+    def extend(sol, k):
+        # extend the solution to qubits k, k + 1, ..., n - 1
+        if k == n:
+            return sol
+        for coefficients in product([0, 1], repeat=len(rows_of_qubit[k])):
+            new_sol = sol.copy()
+            for coefficient, row in zip(coefficients, rows_of_qubit[k]):
+                new_sol = (new_sol + coefficient * row) % 2
+            # check the determinant (modulo 2)
+            a, b, c, d = new_sol[4 * k : 4 * k + 4]
+            if (a * d + b * c) % 2 == 1:
+                result = extend(new_sol, k + 1)
+                if result is not None:
+                    return result
+        return None
+
+    solution = extend(np.zeros(4 * n, dtype=int), 0)
     # if no solution found, return None
-    if not equivalent:
+    if solution is None:
         return None
     # if solution found, return clifford in vector form
-    solution_vector = np.array(sols[0]).astype(int)
+    solution_vector = np.zeros(4 * n, dtype=int)
+    solution_vector[order] = solution
     return solution_vector
 
 
@@ -208,6 +205,18 @@ def clifford_vec_to_global(vec):
     return np.block([[blocks[0], blocks[1]], [blocks[2], blocks[3]]])
 
 
+def _adjacency_matrix(graph):
+    """Return the adjacency matrix of a graph, or of an object with a graph, such that
+    equal nodes of two graphs have equal positions."""
+    if not isinstance(graph, nx.Graph):
+        graph = graph.graph
+    if graph.number_of_nodes() == 0:
+        return np.zeros((0, 0), dtype=int)
+    return nx.to_numpy_array(
+        graph, nodelist=sorted(graph.nodes), dtype=int, weight=None
+    )
+
+
 def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
     """Check if two EGraphs are LC equivalent, and return the Clifford
     operation if so. Implemented as in arXiv:quant-ph/0405023.
@@ -225,8 +234,8 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
             Clifford output according to 'clifford_form' specification.
     """
     # get adjacency matrices of input graphs
-    G = nx.adjacency_matrix(graph1.graph)
-    H = nx.adjacency_matrix(graph2.graph)
+    G = _adjacency_matrix(graph1)
+    H = _adjacency_matrix(graph2)
 
     # check adjacency matrices for same non-empty square shape
     if np.shape(G) == (0, 0) or np.shape(H) == (0, 0):
-- 
2.43.0


From 673ae0a8446cd8e20cb5a9c5c2223183c4dea055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 25/56] fix: datasets with one sample and shuffled splits of
 lists failed

A single sample was returned as a bare vector and treated as several samples.
---
 mentpy/utils/generate_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 9c7c8aa..1655845 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -35,7 +35,7 @@ def generate_random_dataset(
 ) -> tuple:
     r"Return random training and test data (input, target) for a given unitary gate ``unitary``."
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     random_targets = [(unitary @ st.T).T for st in random_inputs]
     return train_test_split(random_inputs, random_targets, test_size=test_size)
 
@@ -48,8 +48,8 @@ def train_test_split(inputs, targets, test_size: float = 0.3, randomize=False) -
 
     if randomize:
         shuffled_indices = np.random.permutation(n_samples)
-        inputs = inputs[shuffled_indices]
-        targets = targets[shuffled_indices]
+        inputs = [inputs[i] for i in shuffled_indices]
+        targets = [targets[i] for i in shuffled_indices]
 
     return (inputs[:n_train_samples], targets[:n_train_samples]), (
         inputs[n_train_samples:],
@@ -95,7 +95,7 @@ def generate_random_dataset_noisy(
         raise ValueError("noise_level must be between 0 and 1")
 
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_samples = len(random_inputs)
     n_test_samples = int(n_samples * test_size)
     n_train_samples = n_samples - n_test_samples
-- 
2.43.0


From 0100e7b0964dc84d1bc9796e3881fad91a936c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 26/56] fix: sampling the fidelities of a circuit used
 attributes that do not exist

It also built the projector on the random state from a vector.
---
 mentpy/utils/expressivity.py | 38 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/mentpy/utils/expressivity.py b/mentpy/utils/expressivity.py
index 616fdab..0b9e7d9 100644
--- a/mentpy/utils/expressivity.py
+++ b/mentpy/utils/expressivity.py
@@ -92,35 +92,19 @@ def sample_probability_density_of_fidelities(
 ):
     r"""Calculates samples of the probability of fidelities of the given graph state circuit"""
 
-    pattern_simulator = PatternSimulator(graph_state_circuit)
-    random_input_states = generate_haar_random_states(
-        len(graph_state_circuit.input_nodes), n_samples
-    )
+    pattern_simulator = PatternSimulator(graph_state_circuit, backend=backend)
+    n_qubits = len(graph_state_circuit.output_nodes)
     fidelities = []
 
-    if backend == "pennylane":
-        qmlcircuit = pattern_simulator.graphstate_to_circuit()
-        for random_st in random_input_states:
-            random_pattern = (
-                2 * np.pi * np.random.rand(pattern_simulator.max_measure_number)
-            )
-            final_state = qmlcircuit(random_pattern, output="density")
-            fid = qml.math.fidelity(np.kron(random_st.T, random_st), final_state)
-            fidelities.append(fid)
-
-    # elif backend == "cirq":
-    #     for random_st in random_input_states:
-    #         random_pattern = (
-    #             2 * np.pi * np.random.rand(pattern_simulator.max_measure_number)
-    #         )
-    #         pattern_simulator.reset(input_state=random_st)
-
-    #         _ = pattern_simulator.measure_pattern(random_pattern)
-    #         final_state = pattern_simulator.current_sim_state
-    #         fidelities.append(cirq.fidelity(random_st, final_state))
-
-    else:
-        print(f"Unsupported backend {backend}")
+    for _ in range(n_samples):
+        random_st = generate_haar_random_states(n_qubits)
+        random_pattern = (
+            2 * np.pi * np.random.rand(len(graph_state_circuit.trainable_nodes))
+        )
+        pattern_simulator.reset()
+        final_state = pattern_simulator.run(random_pattern)
+        fid = qml.math.fidelity(np.outer(random_st, np.conj(random_st)), final_state)
+        fidelities.append(fid)
 
     return fidelities
 
-- 
2.43.0


From d2085545687675548ca6abda40d4d0bab09095be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 27/56] fix: Lie algebras of circuits with a single measured
 node failed

---
 mentpy/utils/lie_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index c06059b..1df6075 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -161,7 +161,8 @@ def remove_repeated_ops(ops: PauliOp):
     """Removes repeated Pauli operators from a set"""
     ops = copy.deepcopy(ops)
     unrep_ops = ops[0]
-    for op in ops[1:]:
+    for i in range(1, len(ops)):
+        op = ops[i]
         if op not in unrep_ops:
             unrep_ops.append(op)
     return unrep_ops
-- 
2.43.0


From 82ce07a6b6771d0f3db79ae0a8cc6fc7b1dc1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 28/56] fix: from_pauli was wrong for Pauli operators with an
 even number of Y's

The ancilla is measured in the Y basis only if the number of Y's is odd.
---
 mentpy/mbqc/templates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/templates.py b/mentpy/mbqc/templates.py
index 747a38e..7353dd5 100644
--- a/mentpy/mbqc/templates.py
+++ b/mentpy/mbqc/templates.py
@@ -309,6 +309,7 @@ def from_pauli(pauli_op: PauliOp):
 
     measurements = {3 * n_qubits + 1: Ment("XY")}
 
+    n_ys = 0
     for q in range(n_qubits):
         has_x, has_z = False, False
         if pauli_op.matrix[0, q] == 1:
@@ -320,7 +321,11 @@ def from_pauli(pauli_op: PauliOp):
             has_z = True
 
         if has_x and has_z:
-            measurements[3 * n_qubits] = Ment("Y")
+            n_ys += 1
+
+    # every Y contributes a phase i to the product of X's and Z's
+    if n_ys % 2 == 1:
+        measurements[3 * n_qubits] = Ment("Y")
 
     input_nodes = [3 * q for q in range(n_qubits)]
     output_nodes = [3 * q + 2 for q in range(n_qubits)]
-- 
2.43.0


From 9fdd5c224cb6415ab36a56cd2cb53875c4e03219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 29/56] fix: entanglement_entropy failed or merged both
 subregions

The minimum cut is also only an upper bound of the entropy, which is the rank
over GF(2) of the adjacency matrix between the subregions.
---
 mentpy/mbqc/states/graphstate.py | 37 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index a90420f..1d1d09f 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -78,31 +78,32 @@ def lc_reduce(graph: GraphState):
     raise NotImplementedError
 
 
-# TODO: Check if this is correct.
 def entanglement_entropy(
     state: GraphState, subRegionA: List, subRegionB: Optional[List] = None
 ) -> float:
-    """Calculate the entanglement entropy of a subregion of a graph state."""
+    """Calculate the entanglement entropy (in bits) of a subregion of a graph state.
 
-    G = state.copy()
-
-    # minimum_cut requires the capacity kwarg.
-    nx.set_edge_attributes(G, 1, name="capacity")
+    The entropy is the rank over GF(2) of the adjacency matrix between the two subregions
+    (see https://arxiv.org/pdf/quant-ph/0602096.pdf). Nodes that do not belong to any of
+    them are taken as measured in the Z basis.
+    """
     if subRegionB is None:
         subRegionB = set(state.nodes()) - set(subRegionA)
 
-    # Allow subregions. These are merged into a supernode to calculate
-    # the minimum cut between them.
-    if isinstance(subRegionA, List):
-        for v in subRegionA:
-            G = nx.contracted_nodes(G, subRegionA[0], v)
-        subRegionA = subRegionA[0]
-    if isinstance(subRegionB, List):
-        for v in subRegionA:
-            G = nx.contracted_nodes(G, subRegionB[0], v)
-        subRegionB = subRegionB[0]
-
-    return nx.minimum_cut(G, subRegionA, subRegionB)[0]
+    rows = [
+        sum(1 << i for i, v in enumerate(subRegionB) if state.has_edge(u, v))
+        for u in set(subRegionA)
+    ]
+
+    rank = 0
+    while rows:
+        pivot = rows.pop()
+        if pivot != 0:
+            rank += 1
+            low_bit = pivot & -pivot
+            rows = [row ^ pivot if row & low_bit else row for row in rows]
+
+    return float(rank)
 
 
 def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
-- 
2.43.0


From 500a682c24608e59cd2a7b7824f53c31f4dfcb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 30/56] fix: drawing failed for graph states, controlled
 measurements and shared inputs and outputs

---
 mentpy/mbqc/view.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 33a571d..74f18d7 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -112,16 +112,14 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         if state.flow is not None:
             fix_wires = []
             for inp in state.input_nodes:
-                is_output = False
                 wire = [inp]
-                while not is_output:
-                    out = state.flow(wire[-1])
-                    wire.append(out)
-                    if out in state.output_nodes:
-                        is_output = True
+                while wire[-1] not in state.output_nodes:
+                    wire.append(state.flow(wire[-1]))
                 fix_wires.append(tuple(wire))
 
     if isinstance(state, GraphState):
+        for key in ("label", "pauliop"):
+            options.pop(key, None)
         nx.draw(state, ax=ax, **options)
 
     elif isinstance(state, MBQCircuit):
@@ -133,7 +131,7 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         for indx, p in enumerate(state.input_nodes):
             position_xy[p] = (0, -1 * indx)
 
-        separation = len(state.outputc) // len(state.output_nodes)
+        separation = len(state.outputc) // max(len(state.output_nodes), 1)
         if fix_wires is not None:
             for wire in fix_wires:
                 if len(wire) + 2 > separation:
@@ -155,7 +153,10 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         fixed_nodes = [x for x in fixed_nodes if x != "*"]
 
         node_pos = nx.spring_layout(
-            state.graph, pos=position_xy, fixed=fixed_nodes, k=1 / len(state.graph)
+            state.graph,
+            pos=position_xy or None,
+            fixed=fixed_nodes or None,
+            k=1 / len(state.graph),
         )
 
         labels = process_labels(state, options)
@@ -167,7 +168,8 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         if show_controls:
             dashed_edges = []
             for node in state.controlled_nodes:
-                for k in state.measurements[node].condition.cond_nodes:
+                condition = state.measurements[node].condition
+                for k in getattr(condition, "cond_nodes", ()):
                     dashed_edges.append((node, k))
             nx.draw_networkx_edges(
                 state.graph,
@@ -205,16 +207,23 @@ def process_labels(state: MBQCircuit, options: dict):
             "XYZ": r"$\nwarrow \nearrow$",
             "": "",
         }
-        labels = {node: plane2arrow[state.planes[node]] for node in state.graph.nodes()}
+        labels = {
+            node: plane2arrow[state.planes[node]]
+            for node in state.graph.nodes()
+            if node not in state.controlled_nodes
+        }
         for node in state.controlled_nodes:
             labels[node] = "Ctrl"
         return labels
     elif label_option in ("angles", "angle"):
         labels = {}
         for node in state.graph.nodes():
-            if state.measurements[node] is not None:
+            if node in state.controlled_nodes:
+                labels[node] = "Ctrl"
+            elif state.measurements[node] is not None:
                 if state.measurements[node].angle is not None:
-                    labels[node] = round(state.measurements[node].angle, 3)
+                    angle = np.round(state.measurements[node].angle, 3)
+                    labels[node] = angle.item() if angle.ndim == 0 else tuple(angle)
                 else:
                     labels[node] = r"$\theta$"
             else:
-- 
2.43.0


From a6a43eb08109bc8f4b81f067a55484307a54545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 31/56] fix: stacking circuits lost the conditions of
 controlled measurements, and failed for other labels

---
 mentpy/mbqc/mbqcircuit.py           | 88 ++++++++++++++---------------
 mentpy/operators/controlled_ment.py |  7 +++
 mentpy/operators/ment.py            | 10 ++++
 3 files changed, 58 insertions(+), 47 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 5c7611e..9688a03 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -96,7 +96,7 @@ class MBQCircuit:
             if measurement_order is not None:
                 measurement_order = [mapping[i] for i in measurement_order]
             if measurements is not None:
-                measurements = {mapping[k]: v for k, v in measurements.items()}
+                measurements = _relabel_measurements(measurements, mapping)
 
         self._graph = graph
 
@@ -506,6 +506,24 @@ def _check_measurement_order(measurement_order: List, partial_order: Callable):
     return True
 
 
+def _relabel_measurements(measurements: Dict[int, Ment], mapping: dict):
+    r"""Renames the nodes of the measurements and of the conditions they depend on"""
+    return {
+        mapping[node]: ment.relabel(mapping) if isinstance(ment, ControlMent) else ment
+        for node, ment in measurements.items()
+    }
+
+
+def _disjoint_union(state1: MBQCircuit, state2: MBQCircuit):
+    r"""Graph and measurements of two circuits, and the new labels of their nodes"""
+    graph = nx.disjoint_union(state1.graph, state2.graph)
+    map1 = {node: i for i, node in enumerate(state1.graph.nodes())}
+    map2 = {node: i + len(map1) for i, node in enumerate(state2.graph.nodes())}
+    measurements = _relabel_measurements(state1.measurements, map1)
+    measurements.update(_relabel_measurements(state2.measurements, map2))
+    return graph, map1, map2, measurements
+
+
 def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
     """Merge two MBQC circuits into a larger MBQC circuit. This is, the input and
     output of the new MBQC circuit will depend on the concat_indices."""
@@ -514,12 +532,12 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
         if i not in state1.output_nodes or j not in state2.input_nodes:
             raise ValueError(f"Cannot merge states at indices {i} and {j}")
 
-    graph = nx.disjoint_union(state1.graph, state2.graph)
-    along1, along2 = zip(*along)
+    graph, map1, map2, measurements = _disjoint_union(state1, state2)
+    along1 = [i for i, _ in along]
+    along2 = [j for _, j in along]
 
-    input_nodes = state1.input_nodes + [
-        i + len(state1.graph) for i in state2.input_nodes if i not in along2
-    ]
+    input_nodes = [map1[i] for i in state1.input_nodes]
+    input_nodes += [map2[i] for i in state2.input_nodes if i not in along2]
     output_nodes = []
     added_ind = []
     for j in state1.output_nodes:
@@ -528,24 +546,19 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
             inputnode = along2[output_ind]
             input_index = state2.input_nodes.index(inputnode)
             added_ind.append(input_index)
-            output_nodes.append(state2.output_nodes[input_index] + len(state1.graph))
+            output_nodes.append(map2[state2.output_nodes[input_index]])
         else:
-            output_nodes.append(j)
+            output_nodes.append(map1[j])
     output_nodes += [
-        i + len(state1.graph)
+        map2[i]
         for indx, i in enumerate(state2.output_nodes)
         if indx not in added_ind
     ]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): ment for i, ment in state2.measurements.items()}
-    )
-
     for i, j in along:
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
-        del measurements[i]
+        graph.add_edge(map1[i], map2[j])
+        graph = nx.contracted_edge(graph, (map2[j], map1[i]), self_loops=False)
+        del measurements[map1[i]]
 
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
@@ -591,19 +604,14 @@ def _vstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     -----
     states
     """
-    graph = nx.disjoint_union(state1.graph, state2.graph)
-    input_nodes = state1.input_nodes + [
-        i + len(state1.graph) for i in state2.input_nodes
+    graph, map1, map2, measurements = _disjoint_union(state1, state2)
+    input_nodes = [map1[i] for i in state1.input_nodes] + [
+        map2[i] for i in state2.input_nodes
     ]
-    output_nodes = state1.output_nodes + [
-        i + len(state1.graph) for i in state2.output_nodes
+    output_nodes = [map1[i] for i in state1.output_nodes] + [
+        map2[i] for i in state2.output_nodes
     ]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): plane for i, plane in state2.measurements.items()}
-    )
-
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
@@ -633,29 +641,15 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
         )
 
     # create new graph
-    graph = nx.disjoint_union(state1.graph, state2.graph)
-
-    nodes1 = list(state1.graph.nodes())
-    nodes2 = list(state2.graph.nodes())
-
-    for i in range(len(state1.output_nodes)):
-        graph.add_edge(
-            nodes1.index(state1.output_nodes[i]),
-            nodes2.index(state2.input_nodes[i]) + len(nodes1),
-        )
-
-    input_nodes = [nodes1.index(i) for i in state1.input_nodes]
-    output_nodes = [nodes2.index(j) + len(nodes1) for j in state2.output_nodes]
+    graph, map1, map2, measurements = _disjoint_union(state1, state2)
 
-    measurements = {nodes1.index(i): ment for i, ment in state1.measurements.items()}
-    measurements.update(
-        {nodes2.index(i) + len(nodes1): ment for i, ment in state2.measurements.items()}
-    )
+    input_nodes = [map1[i] for i in state1.input_nodes]
+    output_nodes = [map2[j] for j in state2.output_nodes]
 
     for i, j in zip(state1.output_nodes, state2.input_nodes):
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
-        del measurements[i]
+        graph.add_edge(map1[i], map2[j])
+        graph = nx.contracted_edge(graph, (map2[j], map1[i]), self_loops=False)
+        del measurements[map1[i]]
 
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index 6f70a9e..e4c3282 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -87,6 +87,13 @@ class ControlMent(Ment):
             self._plane,
         )
 
+    def relabel(self, mapping):
+        """Returns a copy whose condition refers to the nodes renamed with mapping."""
+        new_ment = self.copy()
+        if isinstance(self._condition, MentOutcome):
+            new_ment.condition = self._condition.relabel(mapping)
+        return new_ment
+
     def matrix(self, angle: float | None = None, *args, **kwargs):
         """Return the matrix of the controlled measurement operator."""
         if (not self.is_trainable()) and (angle is not None):
diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index bbfa483..19cc2af 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -49,6 +49,16 @@ class MentOutcome:
         except:
             raise UserWarning("Could not evaluate callable at given")
 
+    def relabel(self, mapping):
+        """Returns the outcome after the nodes are renamed with the given mapping."""
+        inverse = {new: old for old, new in mapping.items()}
+        return MentOutcome(
+            lambda x: self._outcome(
+                {inverse[node]: value for node, value in x.items() if node in inverse}
+            ),
+            cond_nodes={mapping.get(node, node) for node in self._cond_nodes},
+        )
+
     def _binary_operation(self, operation, other):
         if isinstance(other, (bool, int)):
             return MentOutcome(
-- 
2.43.0


From 980b14a6f12735ba00c3864f1993f91a88e6f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 32/56] fix: adding edges renamed the nodes of circuits that
 keep their labels

---
 mentpy/mbqc/mbqcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 9688a03..aeea673 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -99,6 +99,7 @@ class MBQCircuit:
                 measurements = _relabel_measurements(measurements, mapping)
 
         self._graph = graph
+        self._relabel_indices = relabel_indices
 
         # check input and output nodes are in graph. If not, raise error with the node(s) that are not in the graph
         if not all([v in self.graph.nodes for v in input_nodes]):
@@ -493,6 +494,7 @@ class MBQCircuit:
             self.output_nodes,
             measurements=self.measurements,
             default_measurement=self._default_measurement,
+            relabel_indices=self._relabel_indices,
         )
         self.__dict__ = new_circuit.__dict__
 
-- 
2.43.0


From 6411927f7d3c820b7f373dc9c41fc1f094a2a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 33/56] fix: drawing a circuit without flow could hide input
 nodes under output nodes

---
 mentpy/mbqc/view.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 74f18d7..8feaee8 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -132,6 +132,8 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
             position_xy[p] = (0, -1 * indx)
 
         separation = len(state.outputc) // max(len(state.output_nodes), 1)
+        # keep the output nodes apart from the input nodes
+        separation = max(separation, 2)
         if fix_wires is not None:
             for wire in fix_wires:
                 if len(wire) + 2 > separation:
-- 
2.43.0


From 779d3b81b94c16f1e6aef6bd965bb162bcbafd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 34/56] fix: numpy simulators measured inputs before the nodes
 that control them

---
 mentpy/simulators/np_simulator_dm.py | 4 +++-
 mentpy/simulators/np_simulator_sv.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 1d3278f..9b22bf2 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -58,7 +58,9 @@ class NumpySimulatorDM(BaseSimulator):
             ]
             # remove output nodes from the measurement order
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
+                i
+                for i in mbqcircuit.measurement_order
+                if i not in mbqcircuit.quantum_output_nodes
             ]
         else:
             raise ValueError(
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 74345d7..5251b97 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -72,7 +72,9 @@ class NumpySimulatorSV(BaseSimulator):
             ]
             # remove output nodes from the measurement order
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
+                i
+                for i in mbqcircuit.measurement_order
+                if i not in mbqcircuit.quantum_output_nodes
             ]
         else:
             raise ValueError(
-- 
2.43.0


From c971765e835aaa34dc0302d41c75cd4bcd8631ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 35/56] fix: numpy simulators forgot that run had reordered the
 outputs

current_simulated_nodes() did not match the state after a run, and running a
circuit without measured nodes twice permuted its qubits again.
---
 mentpy/simulators/np_simulator_dm.py | 1 +
 mentpy/simulators/np_simulator_sv.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 9b22bf2..5da0b92 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -290,6 +290,7 @@ class NumpySimulatorDM(BaseSimulator):
             self.qstate = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
+            self._current_simulated_nodes = list(self.mbqcircuit.quantum_output_nodes)
 
         # # check if output nodes have a measurement, if so, measure them
         # for i in self.mbqcircuit.output_nodes:
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 5251b97..0602192 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -297,6 +297,7 @@ class NumpySimulatorSV(BaseSimulator):
             self.qstate = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
+            self._current_simulated_nodes = list(self.mbqcircuit.quantum_output_nodes)
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
             return np.outer(self.qstate, np.conj(self.qstate).T)
-- 
2.43.0


From 1029936e77882019b7349a51094d76fab9f5d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 36/56] fix: stacking failed when an output node of the first
 circuit is also an input

---
 mentpy/mbqc/mbqcircuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index aeea673..35752aa 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -537,8 +537,9 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
     graph, map1, map2, measurements = _disjoint_union(state1, state2)
     along1 = [i for i, _ in along]
     along2 = [j for _, j in along]
+    joined = {i: map2[j] for i, j in along}
 
-    input_nodes = [map1[i] for i in state1.input_nodes]
+    input_nodes = [joined.get(i, map1[i]) for i in state1.input_nodes]
     input_nodes += [map2[i] for i in state2.input_nodes if i not in along2]
     output_nodes = []
     added_ind = []
@@ -644,8 +645,9 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
 
     # create new graph
     graph, map1, map2, measurements = _disjoint_union(state1, state2)
+    joined = {i: map2[j] for i, j in zip(state1.output_nodes, state2.input_nodes)}
 
-    input_nodes = [map1[i] for i in state1.input_nodes]
+    input_nodes = [joined.get(i, map1[i]) for i in state1.input_nodes]
     output_nodes = [map2[j] for j in state2.output_nodes]
 
     for i, j in zip(state1.output_nodes, state2.input_nodes):
-- 
2.43.0


From 1099acac53df33ed3004fbdd04d52bb8189860aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 37/56] fix: Pauli operators of different shapes could compare
 equal

The comparison was broadcast, so that XX;XX was equal to XX, and failed for other
numbers of qubits.
---
 mentpy/operators/pauliop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 3ba3ea3..8438aa8 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -117,7 +117,11 @@ class PauliOp:
         return hash(str(self.matrix))
 
     def __eq__(self, other: "PauliOp"):
-        return np.all(self.matrix == other.matrix)
+        if not isinstance(other, PauliOp):
+            return NotImplemented
+        if self.matrix.shape != other.matrix.shape:
+            return False
+        return bool(np.all(self.matrix == other.matrix))
 
     def _mat_to_txt(self, op):
         n_qubits = op.shape[1] // 2
-- 
2.43.0


From 10e5fc55215bd41eb4a3afe9ca9d31d55c7e322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 38/56] fix: PauliOp took unknown letters as identities, and
 failed in other ways for empty operators

---
 mentpy/operators/pauliop.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 8438aa8..cc4c43a 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -53,7 +53,7 @@ class PauliOp:
         """Initialize a PauliOp object."""
 
         if isinstance(op, np.ndarray):
-            if op.shape[1] % 2 != 0:
+            if op.ndim != 2 or op.shape[1] % 2 != 0:
                 raise ValueError(
                     "Tableau representation must have an even number of columns"
                 )
@@ -62,7 +62,7 @@ class PauliOp:
 
         elif isinstance(op, str):
             op = op.replace(" ", "")
-            if op[-1] == ";":
+            if op.endswith(";"):
                 op = op[:-1]
 
             op_list = op.split(";")
@@ -141,6 +141,9 @@ class PauliOp:
         return txt
 
     def _txt_to_mat(self, op_list):
+        if not op_list or not all(op and set(op) <= set("IXYZ") for op in op_list):
+            raise ValueError(f"Invalid Pauli operators {op_list}")
+
         n_qubits = len(op_list[0])
         n_ops = len(op_list)
 
-- 
2.43.0


From 1b5b11c03e739f5a2e510e1f62258fd43267d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 39/56] fix: Lie-algebra generators used stabilizers of input
 nodes

---
 mentpy/utils/lie_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index 1df6075..f92d2b8 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -24,12 +24,14 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
     mo = state.measurement_order
     mapping = state.index_mapping()
     mo = [mapping[i] for i in mo]
+    input_nodes = [mapping[i] for i in state.input_nodes]
     j = mapping[j]
 
     A = []
     b = []
     for k in mo:
-        if (not state.partial_order(j, k)) or k == j:
+        # the stabilizers of the input nodes do not stabilize arbitrary input states
+        if (not state.partial_order(j, k)) or k == j or k in input_nodes:
             A.append(stabilizers[k].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
-- 
2.43.0


From cd92a7aca020d34a8a9c710f844b30dd5d7ff5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 40/56] fix: Lie algebras of circuits that keep their node
 labels failed or mixed nodes up

---
 mentpy/utils/lie_algebra.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index f92d2b8..d81db99 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -23,20 +23,17 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
 
     mo = state.measurement_order
     mapping = state.index_mapping()
-    mo = [mapping[i] for i in mo]
-    input_nodes = [mapping[i] for i in state.input_nodes]
-    j = mapping[j]
 
     A = []
     b = []
     for k in mo:
         # the stabilizers of the input nodes do not stabilize arbitrary input states
-        if (not state.partial_order(j, k)) or k == j or k in input_nodes:
-            A.append(stabilizers[k].matrix[0, : len(mo)])
+        if (not state.partial_order(j, k)) or k == j or k in state.input_nodes:
+            A.append(stabilizers[mapping[k]].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
-    for k in [mapping[i] for i in state.outputc]:
-        A.append(stabilizers[k].matrix[0, len(mo) :])
+    for k in state.outputc:
+        A.append(stabilizers[mapping[k]].matrix[0, len(mo) :])
         p = 0 if k != j else 1
         b.append(np.array([p]))
 
@@ -80,14 +77,11 @@ def calculate_complete_gens_lie_algebra(state: MBQCircuit):
 
 def calculate_gens_lie_algebra(state: MBQCircuit):
     """Calculates the generators of the Lie algebra of a given state"""
-    mapping = {
-        i: j
-        for i, j in zip(state.measurement_order, range(len(state.measurement_order)))
-    }
+    mapping = state.index_mapping()
 
     lieAlgebra = calculate_complete_gens_lie_algebra(state)
 
-    output_ops = lieAlgebra.get_subset(state.output_nodes)
+    output_ops = lieAlgebra.get_subset([mapping[i] for i in state.output_nodes])
     return remove_repeated_ops(output_ops)
 
 
-- 
2.43.0


From 479582d5e033d8ec9827805693c4324db6578d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 41/56] fix: stabilizers failed for graph states without edges

---
 mentpy/mbqc/states/graphstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index 1d1d09f..65bd43c 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -113,7 +113,7 @@ def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
     -----
     states
     """
-    z_mat = nx.adjacency_matrix(graph).todense()
+    z_mat = nx.adjacency_matrix(graph, dtype=int).todense()
     x_mat = np.eye(graph.number_of_nodes(), dtype=int)
 
     return PauliOp(np.hstack((x_mat, z_mat)))
-- 
2.43.0


From be7ce7d0de0768b7cb323ccbbee07ea5f10ed9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:27 +0000
Subject: [PATCH 42/56] fix: the flow space of every circuit with graphs
 without causal flow failed

---
 mentpy/utils/flow_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/flow_space.py b/mentpy/utils/flow_space.py
index cc89e46..e5fdc4f 100644
--- a/mentpy/utils/flow_space.py
+++ b/mentpy/utils/flow_space.py
@@ -3,7 +3,7 @@
 # This program is released under the GNU GPL v3.0 or later.
 # See <https://www.gnu.org/licenses/> for details.
 """A module to study graphs with flow."""
-from mentpy.mbqc import MBQCircuit
+from mentpy.mbqc import GraphState, MBQCircuit
 
 import networkx as nx
 import itertools
@@ -50,7 +50,7 @@ class FlowSpace:
         completegraph = nx.complete_graph(n)
         its = itertools.product([0, 1], repeat=total_n)
         for j in its:
-            g = nx.Graph()
+            g = GraphState()
             g.add_nodes_from(list(range(n)))
             edgs = [edg for i, edg in enumerate(list(completegraph.edges())) if j[i]]
             g.add_edges_from(edgs)
-- 
2.43.0


From 060fcc7393f454ed768f94307acb3599131bd388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 43/56] fix: noisy datasets of unknown noise types had no
 training targets

---
 mentpy/utils/generate_data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 1655845..f261821 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -94,6 +94,11 @@ def generate_random_dataset_noisy(
     if noise_level > 1 or noise_level < 0:
         raise ValueError("noise_level must be between 0 and 1")
 
+    if noise_type not in ["brownian", "bitflip"]:
+        raise ValueError(
+            f"noise_type must be 'brownian' or 'bitflip', but {noise_type} was given"
+        )
+
     n_qubits = int(np.log2(unitary.shape[0]))
     random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_samples = len(random_inputs)
-- 
2.43.0


From 04e54fe2445343db0a9d5b3f09a5f3757ee8103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 44/56] fix: outcomes of copied measurements followed the node
 of the original measurement

The outcome looked its node up in the measurement it was created by, so that
copies of a measurement, and outcomes taken before, changed when the original
was moved to another node.
---
 mentpy/operators/ment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 19cc2af..7e5e0b9 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -212,7 +212,7 @@ class Ment:
     @node_id.setter
     def node_id(self, node_id: Any):
         self._node_id = node_id
-        self._outcome = MentOutcome(lambda x: x[self._node_id], self._node_id)
+        self._outcome = MentOutcome(lambda x: x[node_id], node_id)
 
     def set_angle(self, angle):
         "Sets the angle of the measurement."
-- 
2.43.0


From d70fa5ce3d3cadcdd693f7aca3c02b9e39746d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 45/56] fix: measuring step by step did not record the outcomes

Only run recorded them, so that controlled measurements could not be simulated
step by step.
---
 mentpy/simulators/np_simulator_dm.py | 1 +
 mentpy/simulators/np_simulator_sv.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 5da0b92..7cf5096 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -197,6 +197,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0, mode=mode
         )
+        self.outcomes[node] = outcome
         # check if qstate has nan
         if np.isnan(self.qstate).any():
             raise ValueError(
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 0602192..0cb3f1b 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -210,6 +210,7 @@ class NumpySimulatorSV(BaseSimulator):
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0
         )
+        self.outcomes[node] = outcome
 
         self.current_measurement += 1
         self.qstate = calc.partial_trace(self.qstate, [indx])
-- 
2.43.0


From bc3c94a9e41ec49e19990eb5241630206a0cc1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 46/56] fix: deep copies of PennyLane simulators followed edits
 of the original circuit

The pattern was read from the circuit at every run, together with the graph at
the time of the construction.
---
 mentpy/simulators/pennylane_simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index f72f9b4..d36cdfb 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -4,6 +4,7 @@
 # See <https://www.gnu.org/licenses/> for details.
 """PennyLane simulator for MBQC circuits."""
 
+import copy
 from typing import Union, List, Tuple, Optional
 
 import numpy as np
@@ -114,6 +115,8 @@ def mbqcircuit_to_circuit(
     """Converts a MBQCircuit to a PennyLane circuit."""
     # damping rate of the damping channels, which is p unless given
     gamma = p if gamma is None else gamma
+    # the pattern stays the same if the circuit is edited later
+    gsc = copy.copy(gsc)
     gr = gsc.graph
     N = gr.number_of_nodes()
     dev = qml.device(device, wires=N)
-- 
2.43.0


From 3fd1fa20ed11626fa8e521a88e3b36aaf33e8e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 47/56] fix: state vector simulator returned NaN when outcome 0
 is impossible

---
 mentpy/simulators/np_simulator_sv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 0cb3f1b..5df0210 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -355,6 +355,8 @@ class NumpySimulatorSV(BaseSimulator):
 
         if not force0:
             outcome = np.random.choice([0, 1], p=[prob0, prob1] / (prob0 + prob1))
+        elif np.real(prob0) < 1e-4:
+            outcome = 1  # outcome 0 is impossible, as in the density matrix simulator
         else:
             outcome = 0
 
-- 
2.43.0


From a16cdf76f5c334e9117e95dcc88bda6ad3b63143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:13 +0000
Subject: [PATCH 48/56] fix: controlled measurements with a constant condition
 needed outcomes and reported the wrong plane

---
 mentpy/operators/controlled_ment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index e4c3282..3a58478 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -34,7 +34,7 @@ class ControlMent(Ment):
     @property
     def condition(self) -> bool:
         if isinstance(self._condition, bool):
-            return lambda x: self._condition
+            return lambda *args, **kwargs: self._condition
         elif isinstance(self._condition, MentOutcome):
             return self._condition
 
@@ -65,7 +65,9 @@ class ControlMent(Ment):
 
     def plane(self, *args, **kwargs):
         if args == () and kwargs == {}:
-            if self._true_ment.plane is None or super().plane is None:
+            if isinstance(self._condition, bool) and self._condition:
+                return self._true_ment.plane
+            elif self._true_ment.plane is None or super().plane is None:
                 return None
             else:
                 return super().plane
-- 
2.43.0


From 2301c4926172fdcd116a08f606367f37facc4849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 49/56] fix: PauliOp.get_subset swapped X and Z for negative
 indices

---
 mentpy/operators/pauliop.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index cc4c43a..d2087e7 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -210,9 +210,11 @@ class PauliOp:
             op = mp.PauliOp('XIZ;ZII;IIZ;IZI')
             print(op.get_subset([0, 2]))
         """
-        inds = indices.copy()
-        if max(inds) >= self.matrix.shape[1] // 2:
+        n_qubits = self.matrix.shape[1] // 2
+        if max(indices) >= n_qubits or min(indices) < -n_qubits:
             raise ValueError("Index out of range")
 
-        inds += [i + self.matrix.shape[1] // 2 for i in inds]
+        # a negative index would select the wrong half of the tableau
+        inds = [i % n_qubits for i in indices]
+        inds += [i + n_qubits for i in inds]
         return PauliOp(self.matrix[:, inds])
-- 
2.43.0


From 0724d295ad902e609ca1ecfe94ce0ffb58bbcac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 50/56] fix: ordered_layers(train_indices=True) failed for
 circuits with fixed measurements

---
 mentpy/mbqc/mbqcircuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 35752aa..8b38714 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -360,7 +360,11 @@ class MBQCircuit:
         if train_indices:
             # return the nested layers in Flow.layers but with the trainable_nodes indices
             return [
-                [self.trainable_nodes.index(node) for node in layer]
+                [
+                    self.trainable_nodes.index(node)
+                    for node in layer
+                    if node in self.trainable_nodes
+                ]
                 for layer in self.gflow.layers[:-1]
             ]
         return self.gflow.layers
-- 
2.43.0


From 81f4e6ee6a50e206b34971cae646419b2b434155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 51/56] fix: numpy-dm raised on Z measurements with a certain
 outcome when rounding made a probability negative

---
 mentpy/simulators/np_simulator_dm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 7cf5096..714019e 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -341,8 +341,9 @@ class NumpySimulatorDM(BaseSimulator):
             p1, i, self.current_number_simulated_nodes()
         )
 
-        prob0 = np.real(np.trace(self.qstate @ p0_extended))
-        prob1 = np.real(np.trace(self.qstate @ p1_extended))
+        # rounding can leave an impossible outcome with a tiny negative probability
+        prob0 = max(np.real(np.trace(self.qstate @ p0_extended)), 0.0)
+        prob1 = max(np.real(np.trace(self.qstate @ p1_extended)), 0.0)
 
         plane = ment.plane
         if isinstance(ment, ControlledMent):
-- 
2.43.0


From 9d76e5b70507cf6fecf3ef42c0655314ca14574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 52/56] fix: constructing a circuit with unknown nodes raised
 KeyError instead of the intended ValueError

---
 mentpy/mbqc/mbqcircuit.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 8b38714..e99d6b6 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -68,6 +68,26 @@ class MBQCircuit:
         """Initializes a graph state"""
         # TODO: Remove measurement_order and gflow from the constructor
 
+        # check input and output nodes are in graph. If not, raise error with the node(s) that are not in the graph
+        if not all([v in graph.nodes for v in input_nodes]):
+            raise ValueError(
+                f"Input nodes {input_nodes} are not in the graph. Graph nodes are {graph.nodes}"
+            )
+        if not all([v in graph.nodes for v in output_nodes]):
+            raise ValueError(
+                f"Output nodes {output_nodes} are not in the graph. Graph nodes are {graph.nodes}"
+            )
+
+        if measurements is not None and not all(
+            [v in graph.nodes for v in measurements.keys()]
+        ):
+            nodes_not_in_graph = [v for v in measurements.keys() if v not in graph.nodes]
+            raise ValueError(f"Nodes {nodes_not_in_graph} are not in the graph.")
+        if measurement_order is not None and not all(
+            [v in graph.nodes for v in measurement_order]
+        ):
+            raise ValueError(f"Invalid measurement order {measurement_order}.")
+
         if relabel_indices:
             N = graph.number_of_nodes()
             mapping = dict(zip(sorted(graph.nodes), range(N)))
@@ -101,16 +121,6 @@ class MBQCircuit:
         self._graph = graph
         self._relabel_indices = relabel_indices
 
-        # check input and output nodes are in graph. If not, raise error with the node(s) that are not in the graph
-        if not all([v in self.graph.nodes for v in input_nodes]):
-            raise ValueError(
-                f"Input nodes {input_nodes} are not in the graph. Graph nodes are {self.graph.nodes}"
-            )
-        if not all([v in self.graph.nodes for v in output_nodes]):
-            raise ValueError(
-                f"Output nodes {output_nodes} are not in the graph. Graph nodes are {self.graph.nodes}"
-            )
-
         self._input_nodes = input_nodes
         self._output_nodes = output_nodes
 
@@ -125,11 +135,6 @@ class MBQCircuit:
             for node in self.output_nodes:
                 measurements[node] = None
         else:
-            if not all([v in self.graph.nodes for v in measurements.keys()]):
-                nodes_not_in_graph = [
-                    v for v in measurements.keys() if v not in self.graph.nodes
-                ]
-                raise ValueError(f"Nodes {nodes_not_in_graph} are not in the graph.")
             if not all(
                 [isinstance(v, Ment) or v is None for v in measurements.values()]
             ):
-- 
2.43.0


From a66c1006fc7e9f8c4d1203bdbb711d22b99c83cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 53/56] fix: find_flow checked flows of graphs with other node
 labels against renamed inputs and outputs

---
 mentpy/mbqc/flow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index ec0fef5..79f2d38 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -399,7 +399,9 @@ def find_flow(graph: GraphState, input_nodes, output_nodes, sanity_check=True):
 
             state_flow = (flow, partial_order)
             if sanity_check:
-                if not check_if_flow(graph, inp, outp, flow, partial_order):
+                if not check_if_flow(
+                    graph, input_nodes, output_nodes, flow, partial_order
+                ):
                     raise RuntimeError(
                         "Sanity check found that flow does not satisfy flow conditions."
                     )
-- 
2.43.0


From a9063368ecbb0960530d56ff1037c7c7ecff5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 54/56] fix: find_cflow exceeded the recursion limit on graphs
 with about a thousand layers

---
 mentpy/mbqc/flow.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 79f2d38..b38fa84 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -140,9 +140,11 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
         if past[v] == 1:
             C_set = C_set.union({v})
 
-    flow, ln = causal_flow_aux(
-        graph, set(input_nodes), set(output_nodes), C_set, past, 1, g, l
-    )
+    inputs, outputs, k = set(input_nodes), set(output_nodes), 1
+    while len(C_set) > 0:
+        C_set = causal_flow_aux(graph, inputs, outputs, C_set, past, k, g, l)
+        k += 1
+    flow, ln = g, l
 
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
@@ -152,7 +154,8 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-    """Aux function for causal_flow"""
+    """Aux function for causal_flow. Finds the nodes of layer k, that are corrected by
+    the nodes C, and returns the correctors for the next layer."""
     V = set(graph.nodes())
     C_prime = set()
 
@@ -173,20 +176,7 @@ def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> obj
                     if past[w] == 1:
                         C_prime.add(w)
 
-    if len(C_prime) == 0:
-        return g, l
-
-    else:
-        return causal_flow_aux(
-            graph,
-            inputs,
-            outputs,
-            C_prime,
-            past,
-            k + 1,
-            g,
-            l,
-        )
+    return C_prime
 
 
 ### This section implements generalized flow -- Runs in time O(n^4)
-- 
2.43.0


From 3553c19b7ab3089264dcdfce5dd4a2a007bc6ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 55/56] fix: the matrix of a Pauli measurement is no longer the
 shared Pauli matrix

---
 mentpy/operators/ment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 7e5e0b9..fb1ad61 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -244,7 +244,7 @@ class Ment:
                 matrix = np.cos(angle) * PauliX + np.sin(angle) * PauliY
             case "X" | "Y" | "Z":
                 matrices = {"X": PauliX, "Y": PauliY, "Z": PauliZ}
-                matrix = matrices[self._plane]
+                matrix = matrices[self._plane].copy()
             case "XZ":
                 matrix = np.cos(angle) * PauliX + np.sin(angle) * PauliZ
             case "YZ":
-- 
2.43.0


From 726f443151bc90d1a424436ac060a82cb57ded2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 56/56] fix: stabilizers and gflows do not depend on edge
 weights

---
 mentpy/mbqc/flow.py              | 4 ++--
 mentpy/mbqc/states/graphstate.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index b38fa84..22a48bd 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -186,7 +186,7 @@ def find_gflow(graph: GraphState, input_nodes, output_nodes) -> object:
     """Finds the generalized flow of a ``MBQCGraph`` if it exists.
     Retrieved from https://arxiv.org/pdf/0709.2670v1.pdf.
     """
-    gamma = nx.adjacency_matrix(graph).toarray()
+    gamma = nx.adjacency_matrix(graph, weight=None).toarray()
 
     l = {}
     g = {}
@@ -268,7 +268,7 @@ def find_pflow(
     d = {}
     p = {}
 
-    gamma = nx.adjacency_matrix(graph).toarray()
+    gamma = nx.adjacency_matrix(graph, weight=None).toarray()
 
     for v in graph.nodes():
         if v in output_nodes:
diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index 65bd43c..e6df667 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -113,7 +113,7 @@ def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
     -----
     states
     """
-    z_mat = nx.adjacency_matrix(graph, dtype=int).todense()
+    z_mat = nx.adjacency_matrix(graph, dtype=int, weight=None).todense()
     x_mat = np.eye(graph.number_of_nodes(), dtype=int)
 
     return PauliOp(np.hstack((x_mat, z_mat)))
-- 
2.43.0

