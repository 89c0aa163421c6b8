From fe53a472ce2e28dc8f2605d1f5bccee7064c7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 01/85] fix: exclude from finite domains values that are not
 elements

A variable for noncontiguous integers could take the values between
them, and a single Boolean that must be chosen could be false.
---
 tulip/synth.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 1942325..c50cc2a 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -376,7 +376,8 @@ def iter2var(
             s: 'boolean'
             for s in states})
         # single action ?
-        if len(mutex(state_ids.values())) == 0:
+        if (len(mutex(state_ids.values())) == 0
+                and not min_one):
             return state_ids, None
         # handle multiple actions
         if use_mutex and not min_one:
@@ -425,6 +426,11 @@ def iter2var(
             for x in states}
         variables[statevar] = domain
         constraint = None
+        # integers in the domain that are not states ?
+        if all_int and min_one and (
+                len(set(states)) <
+                domain[1] - domain[0] + 1):
+            constraint = [_disj(state_ids.values())]
     tabs = 2 * '\t'
     _logger.debug(
         f'for tulip variable: {statevar}\n'
-- 
2.43.0


From ae0dc2c424d8a559193cf5d89f7d9bd4b6e5b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 02/85] fix: do not constrain environment actions when a
 transition allows any

The assumption derived from a system transition system ignored
transitions without environment action, so it excluded
environment actions that the system can respond to.
---
 tulip/synth.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index c50cc2a..d7cfeb2 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1020,14 +1020,17 @@ def _env_trans_from_sys_ts(
             continue
         # collect possible next env actions
         next_env_action_combs = set()
+        unconstrained = False
         for from_state, to_state, label in cur_trans:
             env_actions = {
                 k: v
                 for k, v in
                     label.items()
                 if 'env' in k}
+            # transition possible for any env action ?
             if not env_actions:
-                continue
+                unconstrained = True
+                break
             _logger.debug(
                 f'env_actions: {env_actions}')
             _logger.debug(
@@ -1041,7 +1044,7 @@ def _env_trans_from_sys_ts(
         _logger.debug(
             f'next_env_actions: {next_env_actions}')
         # no next env actions ?
-        if not next_env_actions:
+        if unconstrained or not next_env_actions:
             continue
         env_trans += [
             f'{precond} -> X({next_env_actions})']
-- 
2.43.0


From 4022949700dccea488a0a5ce9f19635f553d59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 03/85] fix: a proposition that labels no state is false,
 instead of empty

---
 tulip/synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index d7cfeb2..78b2161 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1240,7 +1240,7 @@ def build_dependent_var_table(
         bool_states=False,
         must='xor')
     ap2states = map_ap_to_states(fts)
-    return {k: _disj(state_ids[x] for x in v)
+    return {k: _disj(state_ids[x] for x in v) or 'False'
             for k, v in ap2states.items()}
 
 
-- 
2.43.0


From 154c69dea394627f8c09d451b20af6e44d59a76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 04/85] fix: convert every initial state of a Mealy machine to
 Moore

---
 tulip/transys/machines.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index aec09b7..3456cdd 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -1048,27 +1048,26 @@ def mealy2moore(
         else:
             masks = {port_name: mask_func}
         moore.add_outputs({port_name: port_type}, masks=masks)
-    # initial state with arbitrary label
+    # initial states with arbitrary label
     out = {
         k: list(v)[0]
         for k, v in
             mealy.outputs.items()}
-    s0 = list(mealy.states.initial)[0]
     # create maps between Moore and Mealy states
     moore2mealy_states = dict()
         # {qj: si} (function)
     mealy2moore_states = dict()
         # {si: {qj, qk, ...}} (relation)
-    new_s0 = _create_state_str(
-        s0, out, moore, moore2mealy_states,
-        mealy2moore_states)
-    moore.states.add(new_s0, out)
-    moore.states.initial.add(new_s0)
-    # cp transitions and create appropriate states
     Q = set()
     S = set()
-    Q.add(new_s0)
-    S.add(new_s0)
+    for s0 in mealy.states.initial:
+        new_s0 = _create_state_str(
+            s0, out, moore, moore2mealy_states,
+            mealy2moore_states)
+        moore.states.initial.add(new_s0)
+        Q.add(new_s0)
+        S.add(new_s0)
+    # cp transitions and create appropriate states
     while Q:
         new_si = Q.pop()
         si = moore2mealy_states[new_si]
-- 
2.43.0


From a8db0498d21f44cecf2b0418f481110188bd3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 05/85] fix: allow machine ports named as parameters of
 add_edge

---
 tulip/synth.py            | 13 +++++--------
 tulip/transys/machines.py |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 78b2161..879a64e 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1721,9 +1721,8 @@ def strategy2mealy(
             d = _int2str(d, str_vars)
             mach.transitions.add(
                 u, v,
-                attr_dict=None,
-                check=False,
-                **d)
+                attr_dict=d,
+                check=False)
             _logger.info(
                 f'node: {v}, state: {d}')
     # special initial state, for first reaction
@@ -1791,8 +1790,7 @@ def _init_edges_using_initial_nodes(
         d = _int2str(d, str_vars)
         mach.transitions.add(
             initial_state, u,
-            attr_dict=None,
-            **d)
+            attr_dict=d)
 
 
 def _init_edges_using_compile_init(
@@ -1832,9 +1830,8 @@ def _init_edges_using_compile_init(
             label = _int2str(var_values, str_vars)
             mach.transitions.add(
                 initial_state, u,
-                attr_dict=None,
-                check=False,
-                **label)
+                attr_dict=label,
+                check=False)
             # remember variable values to avoid
             # spurious non-determinism wrt
             # the machine's memory
diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index 3456cdd..80720fe 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -1210,5 +1210,5 @@ def strip_ports(
     edges = mealy.edges(data=True)
     for u, v, d in edges:
         d = trim_dict(d, names)
-        new.add_edge(u, v, **d)
+        new.add_edge(u, v, attr_dict=d)
     return new
-- 
2.43.0


From 65c5d894f0b81b2f52e268ed34ba353ef66b4134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 06/85] fix: do not change a dictionary while iterating in
 mask_outputs

---
 tulip/synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 879a64e..514b0f9 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1886,7 +1886,7 @@ def mask_outputs(
         ) -> None:
     """Erase outputs from each edge where they are zero."""
     for _, _, d in machine.edges(data=True):
-        for k in d:
+        for k in list(d):
             pop = (
                 k in machine.outputs and
                 d[k] == 0)
-- 
2.43.0


From c320e6d2a5b9bb815ecd9e242898d9684354ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:27 +0000
Subject: [PATCH 07/85] fix: keep transition labels named key

---
 tulip/transys/labeled_graphs.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index eae44ab..56e82bc 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1261,24 +1261,16 @@ class LabeledDiGraph(
             typed_attr,
             self._edge_label_types,
             check)
-        # the only change from nx in
-        # this clause is using TypedDict
         _logger.debug(f'adding edge: {u} ---> {v}')
         if key is None:
             key = self.new_edge_key(u, v)
-        if v in self._succ[u]:
-            keydict = self._adj[u][v]
-            datadict = keydict.get(key, typed_attr)
-            datadict.update(typed_attr)
-            nx.MultiDiGraph.add_edge(
-                self, u, v, key,
-                **datadict)
-        else:
-            # selfloops work this way
-            # without special treatment
-            nx.MultiDiGraph.add_edge(
-                self, u, v,
-                **typed_attr)
+        # selfloops work this way
+        # without special treatment
+        nx.MultiDiGraph.add_edge(
+            self, u, v, key)
+        # not passed as keyword arguments,
+        # because a label can be named `key`
+        self._adj[u][v][key].update(typed_attr)
 
     def add_edges_from(
             self,
-- 
2.43.0


From cbb2a5bc0425ff8910c7058c5f508cf4249066d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:56 +0000
Subject: [PATCH 08/85] fix: quote strings and list no input in exported
 controllers

---
 tulip/dumpsmach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index 59a149e..020b16a 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -85,7 +85,7 @@ def python_case(
     node_to_int = dict([(s, i) for i, s in enumerate(M)])
     input_vars = [input_var for input_var in M.inputs] if M.inputs else []
     input_args = ', '.join(input_vars)
-    input_args_str = "'"+"', '".join(input_vars)+"'"
+    input_args_str = ', '.join(map(repr, input_vars))
     code = (
         'class {classname}:\n'
         '{t}"""Mealy transducer.\n'
@@ -124,7 +124,7 @@ def python_case(
     # cached generator
     ifs = lambda: _itr.chain(['if'], _itr.repeat('elif'))
     proj = lambda d, keys: ((k, d[k]) for k in d if k in keys)
-    proj = lambda d, keys: ((k, "'"+d[k]+"'" if isinstance(d[k], str) else d[k])
+    proj = lambda d, keys: ((k, repr(d[k]) if isinstance(d[k], str) else d[k])
                             for k in d if k in keys)
     # generate selection statements
     c = list()
-- 
2.43.0


From c86a7e184b7209b20a9737bee22497ab8b9e795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 09/85] fix: a vector cost is not greater than an equal one

---
 tulip/transys/cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/cost.py b/tulip/transys/cost.py
index f911228..f0e3d74 100644
--- a/tulip/transys/cost.py
+++ b/tulip/transys/cost.py
@@ -134,4 +134,4 @@ class VectorCost:
             if a == b:
                 continue
             return a > b
-        return True
+        return False
-- 
2.43.0


From 0dd7732e5d246e472671b0a26c2d0717816d235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 10/85] fix: shortest paths of equal cost between nodes of
 different types

---
 tulip/transys/graph_algorithms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/graph_algorithms.py b/tulip/transys/graph_algorithms.py
index 0732bc9..6448934 100644
--- a/tulip/transys/graph_algorithms.py
+++ b/tulip/transys/graph_algorithms.py
@@ -34,6 +34,7 @@
 import collections.abc as _abc
 import copy
 import heapq as _hp
+import itertools as _itr
 
 import tulip.transys.labeled_graphs as _graphs
 
@@ -74,9 +75,11 @@ def dijkstra_single_source_multiple_targets(
     """
     dist = {source: 0}
     visited = set()
-    Q = [(0, source, list())]
+    # breaks ties, because nodes may be unordered
+    count = _itr.count()
+    Q = [(0, next(count), source, list())]
     while Q:
-        cost, u, path = _hp.heappop(Q)
+        cost, _, u, path = _hp.heappop(Q)
         if u in visited:
             continue
         visited.add(u)
@@ -92,7 +95,9 @@ def dijkstra_single_source_multiple_targets(
             new_cost = transition[2][cost_key] + cost
             if not current_cost or new_cost < current_cost:
                 dist[v] = new_cost
-                _hp.heappush(Q, (new_cost, v, path_to_u))
+                _hp.heappush(
+                    Q, (new_cost, next(count),
+                        v, path_to_u))
     return (
         float("inf"),
         list())
-- 
2.43.0


From 69bf6b572e05fd0450a3e9e4efd6700510243680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:03 +0000
Subject: [PATCH 11/85] fix: look up rule transitions by states, plan with
 states that do not accept

---
 tulip/mvp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index ecc6250..231dd2d 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -82,7 +82,8 @@ def _get_rule_violation_cost(
     cost = [0] * spec.get_num_levels()
     for idx, rule in enumerate(spec):
         rule_transitions = rule.automaton().transitions.find(
-            from_spec_state[idx], to_spec_state[idx])
+            [from_spec_state[idx]],
+            [to_spec_state[idx]])
         rule_transition_labels = [
             set(transition[2]["letter"])
             for transition in rule_transitions]
@@ -231,7 +232,8 @@ def solve(
         if goal_label in ks.states[state]["ap"]]
     accepting_goal_states = _trs.SubSet(wpa.accepting)
     accepting_goal_states.add_from(
-        _itr.product(goal_states, spec.get_states()))
+        _itr.product(
+            goal_states, spec.get_accepting_states()))
     cost, product_path = _gralgo.dijkstra_multiple_sources_multiple_targets(
         wpa,
         wpa.states.initial,
-- 
2.43.0


From 43d96c0a133540b6726a2d15b0ff2f87fdedcdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:03 +0000
Subject: [PATCH 12/85] fix: in products with rules add transitions from every
 state

---
 tulip/mvp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index 231dd2d..5a7eddf 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -117,6 +117,8 @@ def _add_transition(
         the cost of transition from from_prod_state[0] to to_prod_state[0]
         in ks
     """
+    # may be an iterator
+    to_prod_states = list(to_prod_states)
     for from_prod_state in from_prod_states:
         for to_prod_state in to_prod_states:
             _add_transition_edge(
-- 
2.43.0


From fc174f61aac78e550c7a5fe7d66e22a633d7563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:15 +0000
Subject: [PATCH 13/85] fix: add to sets from iterators, and hashable elements
 next to unhashable

---
 tulip/transys/mathset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 7c86332..da8fff5 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -422,15 +422,19 @@ class MathSet:
         if isinstance(iterable, set):
             self._set |= iterable
             return
+        # may be an iterator
+        iterable = list(iterable)
         # filter to optimize storage
         try:
             self._set |= set(self._filter_hashables(iterable))
             self._list = list(unique(
                 self._list + self._filter_unhashables(iterable)))
             return
-        except:
+        except TypeError:
             # ...if contents of elements in iterable are mutable
-            self._list = list(unique(self._list + list(iterable)))
+            for item in iterable:
+                if item not in self:
+                    MathSet.add(self, item)
 
     def remove(
             self,
-- 
2.43.0


From 83d656e1c5c753b6f14955c0c2b2c9f03d7a21c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:15 +0000
Subject: [PATCH 14/85] fix: membership in Cartesian products

---
 tulip/transys/mathset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index da8fff5..d875b0d 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -674,9 +674,12 @@ class CartesianProduct:
                 'Argument element must be `Iterable`, otherwise cannot '
                 'recover which item in it belongs to which set in the '
                 'Cartesian product.')
+        element = list(element)
         pairs = zip(self.mathsets, element)
-        return all(map(
-            _op.contains, pairs))
+        return (
+            len(element) == len(self.mathsets) and
+            all(_itr.starmap(
+                _op.contains, pairs)))
 
     def add(
             self,
-- 
2.43.0


From 2608dc000d4d704d6fa8afec587af348a4e6f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:15 +0000
Subject: [PATCH 15/85] fix: check values of typed dictionaries in updates with
 |=, and when asked whether consistent

---
 tulip/transys/mathset.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index d875b0d..ab0c331 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -992,6 +992,12 @@ class TypedDict(
         for key in kwargs:
             self[key] = kwargs[key]
 
+    def __ior__(
+            self,
+            other):
+        self.update(other)
+        return self
+
     def setdefault(
             self,
             key,
@@ -1026,8 +1032,8 @@ class TypedDict(
         Use case: changing the object that allowed_values
         points to can invalidate the assigned values.
         """
-        for k, v in self:
-            if k in self.allowed_values:
-                if v not in self.allowed_values[k]:
-                    return False
+        for k, v in self.items():
+            values = self.allowed_values.get(k)
+            if values is not None and v not in values:
+                return False
         return True
-- 
2.43.0


From 92dfa6d67a52127a87d6d96dff2a1dfa45ad9f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:49 +0000
Subject: [PATCH 16/85] fix: removing a transition without labels removes all
 between the states

---
 tulip/transys/labeled_graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 56e82bc..37c180d 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1351,7 +1351,7 @@ class LabeledDiGraph(
             key
             for key, data in
                 self[u][v].items()
-            if data == attr_dict}
+            if not attr_dict or data == attr_dict}
         for key in rm_keys:
             self.remove_edge(
                 u, v,
-- 
2.43.0


From 5fc6c8f7d65283215cb9f2a8e70870120606e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:49 +0000
Subject: [PATCH 17/85] fix: take defaults into account when looking for an
 existing transition

---
 tulip/transys/labeled_graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 37c180d..5604287 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1247,7 +1247,7 @@ class LabeledDiGraph(
                 f'where:\t from_state = {u}\n'
                 f'and:\t to_state = {v}\n')
         # check if same labeled transition exists
-        if attr_dict in existing_u_v.values():
+        if typed_attr in existing_u_v.values():
             _logger.warning(
                 'Same labeled transition:\n'
                 'from_state---[label]---> to_state\n'
-- 
2.43.0


From f584e54aecdfa1b3eb10ea4550c7cf4ef9d99c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:49 +0000
Subject: [PATCH 18/85] fix: reachable states

---
 tulip/transys/labeled_graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 5604287..ab7789b 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -276,7 +276,7 @@ class States:
 
         Wrapper of `networkx.descendants()`.
         """
-        return nx.descendants(self, state)
+        return nx.descendants(self.graph, state)
 
     def backward_reachable(
             self,
@@ -286,7 +286,7 @@ class States:
 
         Wrapper of `networkx.ancestors()`.
         """
-        return nx.ancestors(self, state)
+        return nx.ancestors(self.graph, state)
 
     def paint(
             self,
-- 
2.43.0


From e111cea91c0fcbcd3cc47b9c14eaa22556661b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:49 +0000
Subject: [PATCH 19/85] fix: search for a single state, or for those of an
 iterator

---
 tulip/transys/labeled_graphs.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index ab7789b..e8c2cb7 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -106,6 +106,25 @@ def label_is_desired(
     return True
 
 
+def _as_container(
+        graph:
+            'LabeledDiGraph',
+        states:
+            _abc.Iterable |
+            None
+        ) -> (
+            _abc.Container |
+            None):
+    """Return container, also for a single state."""
+    if states is None:
+        return None
+    if states in graph:
+        return [states]
+    if isinstance(states, _abc.Iterator):
+        return list(states)
+    return states
+
+
 def test_common_bug(
         value,
         desired_value
@@ -384,6 +403,7 @@ class States:
                 raise TypeError(
                     'with_attr_dict must be a dict'
                     ) from error
+        states = _as_container(self.graph, states)
         found_state_label_pairs = list()
         for state, attr_dict in self.graph.nodes(data=True):
             _logger.debug(
@@ -731,6 +751,7 @@ class Transitions:
         u_v_edges = self.graph.edges(
             nbunch=from_states,
             data=True)
+        to_states = _as_container(self.graph, to_states)
         if to_states is not None:
             u_v_edges = [
                 (u, v, d)
-- 
2.43.0


From 8a3df79d509b32d057f287a003e8281413338c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:49 +0000
Subject: [PATCH 20/85] fix: map an adjacency matrix to states with a
 dictionary

---
 tulip/transys/labeled_graphs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index e8c2cb7..f5a6345 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -654,7 +654,11 @@ class Transitions:
                 'Adjacency matrix must be square.')
         # check states exist,
         # before adding any transitions
-        for state in adj2states:
+        if isinstance(adj2states, dict):
+            states = adj2states.values()
+        else:
+            states = adj2states
+        for state in states:
             if state in self.graph:
                 continue
             raise ValueError(
-- 
2.43.0


From b2b919757c5d8f012b43d48643b14be31e083725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:49 +0000
Subject: [PATCH 21/85] fix: add combinations of transitions to states of an
 iterator

---
 tulip/transys/labeled_graphs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index f5a6345..17d54c4 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -562,6 +562,8 @@ class Transitions:
 
         for `u` in `from_states` for `v` in `to_states`.
         """
+        # may be an iterator
+        to_states = list(to_states)
         for u in from_states:
             for v in to_states:
                 self.graph.add_edge(
-- 
2.43.0


From f8a86ea3d916fb7914c26cede63c4354ce5af9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:49 +0000
Subject: [PATCH 22/85] fix: do not change labels that the caller passed

---
 tulip/transys/labeled_graphs.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 17d54c4..1dc987e 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -398,8 +398,10 @@ class States:
             with_attr_dict = with_attr
         else:
             try:
-                with_attr_dict.update(with_attr)
-            except AttributeError as error:
+                with_attr_dict = {
+                    **with_attr_dict,
+                    **with_attr}
+            except TypeError as error:
                 raise TypeError(
                     'with_attr_dict must be a dict'
                     ) from error
@@ -749,8 +751,10 @@ class Transitions:
         if with_attr_dict is None:
             with_attr_dict = with_attr
         try:
-            with_attr_dict.update(with_attr)
-        except:
+            with_attr_dict = {
+                **with_attr_dict,
+                **with_attr}
+        except TypeError:
             raise TypeError(
                 '`with_attr_dict` must be a `dict`')
         found_transitions = list()
@@ -1129,9 +1133,8 @@ class LabeledDiGraph(
         if attr_dict is None:
             return attr
         try:
-            attr_dict.update(attr)
-            return attr_dict
-        except AttributeError as error:
+            return {**attr_dict, **attr}
+        except TypeError as error:
             raise nx.NetworkXError(
                 'The `attr_dict` argument '
                 'must be a dictionary.'
-- 
2.43.0


From 80444ed5851b58c8b48f9ba2057ab3205e0750d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 23/85] fix: check labels when assigned, and keep labels of
 states added again

---
 tulip/transys/labeled_graphs.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 1dc987e..5263bb5 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1169,6 +1169,9 @@ class LabeledDiGraph(
         typed_attr.update(
             copy.deepcopy(
                 self._node_label_defaults))
+        # labels already specified
+        typed_attr.update(
+            self._node.get(n, dict()))
         # type checking happens here
         typed_attr.update(attr_dict)
         self._check_for_untyped_keys(
@@ -1176,8 +1179,9 @@ class LabeledDiGraph(
             self._node_label_types,
             check)
         nx.MultiDiGraph.add_node(
-            self, n,
-            **typed_attr)
+            self, n)
+        # `networkx` stores a `dict`
+        self._node[n] = typed_attr
 
     def add_nodes_from(
             self,
@@ -1298,9 +1302,10 @@ class LabeledDiGraph(
         # without special treatment
         nx.MultiDiGraph.add_edge(
             self, u, v, key)
-        # not passed as keyword arguments,
-        # because a label can be named `key`
-        self._adj[u][v][key].update(typed_attr)
+        # `networkx` stores a `dict`
+        for k, value in self._adj[u][v][key].items():
+            typed_attr.setdefault(k, value)
+        self._adj[u][v][key] = typed_attr
 
     def add_edges_from(
             self,
-- 
2.43.0


From 9b8718fbc9ddef44141d40509f524486953b4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 24/85] fix: remove states that do not accept, and states of
 Rabin automata

---
 tulip/transys/automata.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index d7bb5a6..3b33622 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -183,7 +183,8 @@ class FiniteStateAutomaton(
         accepting set if present.
         """
         # intercept to remove also from accepting states
-        self.accepting.remove(node)
+        if node in self.accepting:
+            self.accepting.remove(node)
         super().remove_node(node)
 
 
@@ -603,6 +604,13 @@ class RabinAutomaton(
         self.accepting = RabinPairs(self.states)
         self.automaton_type = 'Rabin Automaton'
 
+    def remove_node(self, node):
+        """Remove state, also from the acceptance pairs."""
+        for good, bad in self.accepting:
+            good -= [node]
+            bad -= [node]
+        super().remove_node(node)
+
 
 class DRA(
         RabinAutomaton):
-- 
2.43.0


From 9034d0e589e10b631d7bce1271fb18837ec2c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 25/85] fix: return the maximum color, not a node

---
 tulip/transys/automata.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 3b33622..232950f 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -695,9 +695,7 @@ class ParityGame(
         Maximization is over all nodes.
         In absence of nodes, return `-1`.
         """
-        def key(node):
-            return self.nodes[node]['color']
         return max(
-            self,
-            key=key,
+            (self.nodes[node]['color']
+             for node in self),
             default=-1)
-- 
2.43.0


From 16a4a1fd7df5e13975628fc91d1445d0c9ae507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:34 +0000
Subject: [PATCH 26/85] fix: check for untyped labels only those passed

---
 tulip/transys/labeled_graphs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 5263bb5..64084eb 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1170,12 +1170,13 @@ class LabeledDiGraph(
             copy.deepcopy(
                 self._node_label_defaults))
         # labels already specified
-        typed_attr.update(
+        dict.update(
+            typed_attr,
             self._node.get(n, dict()))
         # type checking happens here
         typed_attr.update(attr_dict)
         self._check_for_untyped_keys(
-            typed_attr,
+            attr_dict,
             self._node_label_types,
             check)
         nx.MultiDiGraph.add_node(
-- 
2.43.0


From 1a5b2b205b8355c0ddd5b0fcee0e10d62b3c262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 27/85] fix: return all new successors, also of states without
 any

---
 tulip/transys/products.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 9984e12..c4d1525 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -144,8 +144,7 @@ class OnTheFlyProductAutomaton(
                 new_accepting)
         # new_sqs = {x for x in next_sqs if x not in self}
         _logger.debug(f'next product states: {next_sqs}')
-        _logger.debug(f'new unvisited product states: {new_sqs}')
-        return new_sqs
+        return next_sqs
 
     def add_all_states(self):
         """Iterate `add_successors` until all states are added.
-- 
2.43.0


From 9d0ef170f2dd49cdf0576e9be0527797c87579ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:16 +0000
Subject: [PATCH 28/85] fix: keep actions in products of transition systems
 with automata

---
 tulip/transys/products.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index c4d1525..c2dbab4 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -31,6 +31,7 @@
 # SUCH DAMAGE.
 """Products between automata and transition systems"""
 import collections.abc as _abc
+import copy
 import logging
 import warnings
 
@@ -208,10 +209,14 @@ def ts_ba_sync_prod(
     fts = transition_system
     ba = buchi_automaton
     prodts_name = f'{fts.name}*{ba.name}'
-    prodts = transys.FiniteTransitionSystem()
+    # same actions as `fts`
+    actions = [
+        dict(name=name, values=copy.copy(values), setter=True)
+        for name, values in fts.actions.items()]
+    prodts = transys.FiniteTransitionSystem(
+        env_actions=actions, sys_actions=list())
     prodts.name = prodts_name
     prodts.atomic_propositions.add_from(ba.states())
-    prodts.sys_actions.add_from(fts.actions)
     # construct initial states of product automaton
     s0s = set(fts.states.initial)
     q0s = set(ba.states.initial)
@@ -364,12 +369,10 @@ def find_prod_succ(
                     prev_sq, new_sq,
                     letter=fts.states[to_s]['ap'])
             elif hasattr(product, 'actions'):
-                if not sublabel_values:
-                    product.transitions.add(prev_sq, new_sq)
-                else:
-                    product.transitions.add(
-                        prev_sq, new_sq,
-                        actions=sublabel_values['actions'])
+                product.transitions.add(
+                    prev_sq, new_sq,
+                    attr_dict=sublabel_values,
+                    check=False)
     return (next_sqs, new_accepting)
 
 
-- 
2.43.0


From 608d14f04ebafa0fc907ff20f1fb54708f6372fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 29/85] fix: letters in products with propositions that the
 automaton does not mention

---
 tulip/transys/products.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index c2dbab4..5042ae8 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -420,6 +420,9 @@ def ba_ts_sync_prod(
     # which would generate a combinatorially large alphabet
     prod_ba.alphabet.math_set.update(
         buchi_automaton.alphabet.math_set)
+    # letters are labels of `transition_system`
+    prod_ba.alphabet.math_set.update(
+        transition_system.atomic_propositions)
     for from_state, to_state in prod_ts.transitions():
         # prject prod_TS state to TS state
         ts_to_state = to_state[0]
-- 
2.43.0


From 369dca0987a75d44ecb07dec88bf2606c93278c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:38 +0000
Subject: [PATCH 30/85] fix: do not change operations that the caller passed

---
 tulip/transys/compositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/transys/compositions.py b/tulip/transys/compositions.py
index 4d474fc..b222bd7 100644
--- a/tulip/transys/compositions.py
+++ b/tulip/transys/compositions.py
@@ -121,6 +121,9 @@ def synchronous_parallel(
     """
     if transition_attr_operations is None:
         transition_attr_operations = dict()
+    # copy, because defaults are added below
+    transition_attr_operations = dict(
+        transition_attr_operations)
     # Let models = [K_1, ..., K_n].
     # Let
     # * prod_states = [S_1, ..., S_n]
-- 
2.43.0


From 59f2c73f576e66f937701ef228bbb44c28a2c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:38 +0000
Subject: [PATCH 31/85] fix: a value that is not a number is not a probability

---
 tulip/transys/transys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 7e347f6..953a03b 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -174,7 +174,7 @@ class MarkovChain(
                     obj >= 0 and
                     obj <= 1)
             except TypeError:
-                pass
+                return False
             return in_01
 
 
-- 
2.43.0


From 1a8f06cd5050839f27409deaab97cd05f84e579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:23 +0000
Subject: [PATCH 32/85] fix: do not share labels with a composition of one
 model

---
 tulip/transys/compositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/compositions.py b/tulip/transys/compositions.py
index b222bd7..9360525 100644
--- a/tulip/transys/compositions.py
+++ b/tulip/transys/compositions.py
@@ -162,7 +162,8 @@ def synchronous_parallel(
         ts.states[state]["ap"] = _ft.reduce(
             _op.or_, [
                 models[i].states[state[i]]["ap"]
-                for i in range(len(models))])
+                for i in range(len(models))],
+            set())
     #
     # Compute the initial state of ts:
     # I = I_1 \times ... \times I_n
-- 
2.43.0


From 48fe6d643aa81d02e42937da82d14a18c95c6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 33/85] fix: gridworlds are equal only if all their cells are

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index bb35f2a..ba7e64e 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -133,7 +133,7 @@ class GridWorld:
                 # the two is undefined.
         if self.size() != other.size():
             return False
-        if np.all(self.W != other.W):
+        if np.any(self.W != other.W):
             return False
         if self.goal_list != other.goal_list:
             return False
-- 
2.43.0


From 2dc3f488ba696d9b1b94b43278d161deac4d561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 34/85] fix: keep goals at initial cells in copies of
 gridworlds, copy empty gridworlds

---
 tulip/gridworld.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index ba7e64e..a645394 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -215,9 +215,13 @@ class GridWorld:
             return out
 
     def __copy__(self):
-        return GridWorld(
-            self.dumps(),
-            prefix=self.prefix)
+        gw = GridWorld(prefix=self.prefix)
+        gw.offset = self.offset
+        if self.W is not None:
+            gw.W = self.W.copy()
+        gw.init_list = list(self.init_list)
+        gw.goal_list = list(self.goal_list)
+        return gw
 
     def copy(self) -> 'GridWorld':
         """Deep-copy GridWorld instance.
-- 
2.43.0


From ffbfa5cc4f491d531cafb33e9fa7334a8e6250ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 35/85] fix: cells outside a gridworld are occupied in extended
 subworlds

---
 tulip/gridworld.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index a645394..8b059d4 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -818,20 +818,15 @@ class GridWorld:
                 offset[0] + size[0]), offset[1]:(offset[1] + size[1])].copy()
         else:
             sub = GridWorld(prefix=prefix)
-            sub.W = np.ones(size)
+            sub.W = np.ones(size, dtype=self.W.dtype)
             self_offset = (max(offset[0], 0), max(offset[1], 0))
-            self_offset = (min(self_offset[0], self.W.shape[
-                           0] - 1), min(self_offset[1], self.W.shape[1] - 1))
             sub_offset = (max(-offset[0], 0), max(-offset[1], 0))
-            sub_offset = (min(sub_offset[0], sub.W.shape[
-                          0] - 1), min(sub_offset[1], sub.W.shape[1] - 1))
-            actual_size = (
-                min(size[0],
-                    self.W.shape[0] - self_offset[0],
-                    sub.W.shape[0] - sub_offset[0]),
-                min(size[1],
-                    self.W.shape[1] - self_offset[1],
-                    sub.W.shape[1] - sub_offset[1]))
+            # 0 if disjoint from this gridworld
+            actual_size = tuple(
+                max(0, min(
+                    size[k] - sub_offset[k],
+                    self.W.shape[k] - self_offset[k]))
+                for k in range(2))
             sub.W[sub_offset[0]:(sub_offset[0] + actual_size[0]),
                   sub_offset[1]:(sub_offset[1] + actual_size[1])] = self.W[
                 self_offset[0]:(self_offset[0] + actual_size[0]),
-- 
2.43.0


From cb8eb1bc618500ff3501717b47e6df03d88bc6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 36/85] fix: apply the offset to integer variables too, number
 cells of trolls as those of the gridworld

---
 tulip/gridworld.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 8b059d4..268cec2 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -958,10 +958,7 @@ class GridWorld:
         col_high = self.W.shape[1]
         spec_trans = list()
         orig_offset = copy.copy(self.offset)
-        if nonbool:
-            self.offset = (0, 0)
-        else:
-            self.offset = offset
+        self.offset = offset
         # Safety, transitions
         for i in range(row_low, row_high):
             for j in range(col_low, col_high):
@@ -1044,8 +1041,10 @@ class GridWorld:
             spec_trans.append("\n|| ".join(disj))
         if nonbool:
             sys_vars = {
-                f"{self.prefix}_r": (0, self.W.shape[0] - 1),
-                f"{self.prefix}_c": (0, self.W.shape[1] - 1)}
+                f"{self.prefix}_r": (
+                    offset[0], offset[0] + self.W.shape[0] - 1),
+                f"{self.prefix}_c": (
+                    offset[1], offset[1] + self.W.shape[1] - 1)}
         else:
             sys_vars = set()
             for i in range(row_low, row_high):
@@ -1457,7 +1456,7 @@ def add_trolls(
                         offset=t_offset, nonbool=nonbool))
     spec = Y.spec(controlled_dyn=True, nonbool=nonbool)
     for Xi in X:
-        spec |= Xi[1].spec(offset=(-Xi[0][0], -Xi[0][1]),
+        spec |= Xi[1].spec(offset=Xi[0],
                            controlled_dyn=False, nonbool=nonbool)
     # Mutual exclusion
     for i in range(Y.size()[0]):
@@ -1471,9 +1470,9 @@ def add_trolls(
                     if nonbool:
                         Xivar = (
                             f'((X {Xi[1].prefix}'
-                            f'_r = {i - Xi[0][0]}'
+                            f'_r = {i}'
                             f') & (X {Xi[1].prefix}_c = '
-                            f'{j - Xi[0][1]}))')
+                            f'{j}))')
                     else:
                         Xivar = (
                             f'X {Xi[1].prefix}'
-- 
2.43.0


From 82526a625f2a71352f0bc596a3ae96cfed56fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 37/85] fix: use the given prefix in unoccupied gridworlds

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 268cec2..5f4532a 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1358,7 +1358,7 @@ def unoccupied(
         raise TypeError("invalid gridworld size.")
     return GridWorld(
         f'{size[0]} {size[1]}',
-        prefix="Y")
+        prefix=prefix)
 
 
 def add_trolls(
-- 
2.43.0


From 05008bfcba971ea295bbcb83a2d5e321db2f2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:40 +0000
Subject: [PATCH 38/85] fix: keep integer variables within their domains in
 games solved by omega

---
 tulip/interfaces/omega.py | 50 +++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index c595ed0..6dd4f11 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -159,10 +159,23 @@ def _grspec_to_automaton(
         env=list(g.env_vars.keys()),
         sys=list(g.sys_vars.keys()))
     f = g._bool_int.__getitem__
-    a.init['env'] = _conj(g.env_init, f)
-    a.init['sys'] = _conj(g.sys_init, f)
-    a.action['env'] = _conj(g.env_safety, f)
-    a.action['sys'] = _conj(g.sys_safety, f)
+    # bitfields can take values
+    # outside the domains of variables
+    env_dom = _domains(g.env_vars, d)
+    sys_dom = _domains(g.sys_vars, d)
+    init = dict(env=env_dom, sys=sys_dom)
+    if g.qinit == r'\A \A':
+        init = dict(env=env_dom + sys_dom, sys=list())
+    elif g.qinit == r'\E \E':
+        init = dict(env=list(), sys=env_dom + sys_dom)
+    a.init['env'] = _conj(g.env_init, f, init['env'])
+    a.init['sys'] = _conj(g.sys_init, f, init['sys'])
+    a.action['env'] = _conj(
+        g.env_safety, f,
+        _domains(g.env_vars, d, prime=True))
+    a.action['sys'] = _conj(
+        g.sys_safety, f,
+        _domains(g.sys_vars, d, prime=True))
     if g.env_prog:
         w1 = [f'!({s})' for s in map(f, g.env_prog)]
     else:
@@ -180,12 +193,35 @@ def _grspec_to_automaton(
     return a
 
 
+def _domains(
+        names:
+            _abc.Iterable,
+        domains:
+            dict,
+        prime:
+            bool=False
+        ) -> list[str]:
+    """Return constraints of integer variables to their domains."""
+    r = list()
+    for name in names:
+        if domains[name] == 'bool':
+            continue
+        low, high = domains[name]
+        var = f"{name}'" if prime else name
+        r.append(f'(({low} <= {var}) & ({var} <= {high}))')
+    return r
+
+
 def _conj(
         strings:
             _abc.Iterable,
         f:
-            _abc.Callable
+            _abc.Callable,
+        others:
+            _abc.Iterable=()
         ) -> str:
-    if not strings:
+    conjuncts = [f(s) for s in strings]
+    conjuncts.extend(others)
+    if not conjuncts:
         return 'TRUE'
-    return ' & '.join(f(s) for s in strings)
+    return ' & '.join(conjuncts)
-- 
2.43.0


From 87cf420c2239daff6a3842c0044fb7beea1a10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:17 +0000
Subject: [PATCH 39/85] fix: a system action that is false is unrealizable, not
 an error

---
 tulip/interfaces/omega.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index 6dd4f11..5e5a5ca 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -51,7 +51,6 @@ def synthesize_enumerated_streett(
         ) -> nx.DiGraph:
     """Return transducer enumerated as a graph."""
     aut = _grspec_to_automaton(spec)
-    assert aut.action['sys'] != aut.false
     t0 = time.time()
     z, yij, xijk = gr1.solve_streett_game(aut)
     t1 = time.time()
-- 
2.43.0


From a5d6077ef9f992daf32a4256a1532ee3b2191ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:44 +0000
Subject: [PATCH 40/85] fix: outputs of Moore controllers do not depend on the
 next inputs

---
 tulip/interfaces/omega.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index 5e5a5ca..7dbb8d2 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -59,6 +59,8 @@ def synthesize_enumerated_streett(
         print('WARNING: unrealizable')
         return None
     gr1.make_streett_transducer(z, yij, xijk, aut)
+    if aut.moore:
+        _choose_outputs(aut)
     t2 = time.time()
     g = enum.action_to_steps(
         aut, 'env', 'impl',
@@ -108,6 +110,33 @@ def _int_bounds(aut: trl.Automaton):
     return u
 
 
+def _choose_outputs(
+        aut:
+            trl.Automaton
+        ) -> None:
+    """Keep one assignment of next outputs for each state.
+
+    The enumeration picks next outputs after
+    the next inputs. If several outputs are possible,
+    then the choice could depend on these inputs,
+    which a Moore controller does not know.
+    """
+    def bits_of(names):
+        return [
+            bit
+            for name in names
+            for bit in aut.vars[name].get(
+                'bitnames', [name])]
+    bdd = aut.bdd
+    u = aut.action['impl']
+    primed_bits = bits_of(aut.varlist["impl'"])
+    for bit in bits_of(aut.varlist["sys'"]):
+        true = bdd.var(bit)
+        can_be_true = bdd.exist(primed_bits, u & true)
+        u &= true | ~ can_be_true
+    aut.action['impl'] = u
+
+
 def _strategy_to_state_annotated(
         g:
             nx.DiGraph,
-- 
2.43.0


From 840f22f6057f12a2f02b6e7aaf4c48b632f310ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 41/85] fix: do not ignore initial states by default in
 synthesize_many

---
 tulip/synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index 514b0f9..7d2873d 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1334,6 +1334,8 @@ def synthesize_many(
         available options.
     """
     assert isinstance(ts, dict), ts
+    if ignore_init is None:
+        ignore_init = set()
     for name, t in ts.items():
         if not isinstance(t, transys.FiniteTransitionSystem):
             raise AssertionError(t)
-- 
2.43.0


From a1741ae64b3269f330ca9bca78693e786e681628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:55 +0000
Subject: [PATCH 42/85] fix: keep the number of disturbances when their set is
 empty

---
 tulip/abstract/feasible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index 84ac667..b504b25 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -549,7 +549,7 @@ def createLM(
     # non-zero disturbance matrix E ?
     if not np.all(E == 0):
         if not pc.is_fulldim(D):
-            E = np.zeros(K.shape)
+            E = np.zeros(E.shape)
     list_len = np.array(
         [P.A.shape[0]
          for P in list_P])
-- 
2.43.0


From 692ac9895042c016513da9c9d9071a53f73e0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:55 +0000
Subject: [PATCH 43/85] fix: account for disturbances that affect only the
 constraints of inputs

---
 tulip/abstract/feasible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index b504b25..7b9c35f 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -660,8 +660,8 @@ def createLM(
                 (i + 1) * n))
         A_k[idx] = np.eye(n)
     # Get disturbance sets
-    if not np.all(Gk == 0):
-        G = np.vstack([Gk, GU])
+    G = np.vstack([Gk, GU])
+    if not np.all(G == 0):
         D_hat = get_max_extreme(G, D, N)
     else:
         D_hat = np.zeros([sumlen + LUn * N, 1])
-- 
2.43.0


From 462c0415352f258fa4071fadfdff1c06fc4a2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:55 +0000
Subject: [PATCH 44/85] fix: disturbance sets with more than ten vertices

---
 tulip/abstract/feasible.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index 7b9c35f..5fcc1f9 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -46,6 +46,7 @@ Relevant
 `find_controller`
 """
 import collections.abc as _abc
+import itertools
 import logging
 
 import numpy as np
@@ -727,19 +728,16 @@ def get_max_extreme(
     DN_extreme = np.zeros([
         dim * N,
         nv**N])
-    for i in range(nv**N):
-        # Last N digits are indices we want
-        ind = np.base_repr(
-            i,
-            base=nv,
-            padding=N)
+    indices = itertools.product(
+        range(nv), repeat=N)
+    for i, ind in enumerate(indices):
         for j in range(N):
             DN_extreme[
                 range(
                     j * dim,
                     (j + 1) * dim),
                 i] = D_extreme[
-                    int(ind[-j - 1]),
+                    ind[j],
                     :]
     d_hat = np.amax(
         np.dot(G, DN_extreme),
-- 
2.43.0


From 4759932e2f0616f63f1d05bda8b8c0d0bd3f3035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:59 +0000
Subject: [PATCH 45/85] fix: bounds of the domain in grids are numbers

---
 tulip/abstract/prop2partition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index 76b1701..4b49744 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -550,7 +550,9 @@ def add_grid(
             'grid points parameters '
             'must be given.')
     dim = len(ppp.domain.A[0])
-    domain_bb = ppp.domain.bounding_box
+    domain_bb = [
+        bound.flatten()
+        for bound in ppp.domain.bounding_box]
     size_list = list()
     if grid_size != None:
         if isinstance(grid_size, list):
-- 
2.43.0


From df6b11f0f75daffd919bfc7ec435dab26cc073f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:59 +0000
Subject: [PATCH 46/85] fix: grids in one dimension

---
 tulip/abstract/prop2partition.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index 4b49744..8d3af11 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -606,14 +606,11 @@ def add_grid(
             float(domain_bb[1][j]),
             size_list[j],
             abs_tol)
-        if j > 0:
-            if j == 1:
-                re_list = list_grid[j - 1]
-                re_list = product_interval(
-                    re_list, list_grid[j])
-            else:
-                re_list = product_interval(
-                    re_list, list_grid[j])
+        if j == 0:
+            re_list = list_grid[j]
+        else:
+            re_list = product_interval(
+                re_list, list_grid[j])
         j += 1
     new_list = list()
     parent = list()
-- 
2.43.0


From 712918cfc8d941e7598bd1b4eac4e35ba7f5d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:30 +0000
Subject: [PATCH 47/85] fix: switching modes that are not strings

---
 tulip/abstract/discretization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index f707a55..b2b7aff 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -2025,7 +2025,6 @@ def merge_abstractions(
                 env_actions=str(e),
                 sys_actions=str(s))
             for e, s in modes}
-        env_actions, sys_actions = zip(*modes)
         sys_ts.env_actions.add_from(env_actions)
         sys_ts.sys_actions.add_from(sys_actions)
     for mode in modes:
-- 
2.43.0


From 60a13599628509d9dd1b040259a42b1d9d7b81a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 48/85] fix: default parameters for discretizing switched
 systems

---
 tulip/abstract/discretization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index b2b7aff..9b4f29e 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1897,10 +1897,12 @@ def discretize_switched(
         abstracted dynamics,
         some attributes are `dict` keyed by mode
     """
-    if disc_params is None:
-        disc_params = dict(N=1, trans_length=1)
     _logger.info('discretizing hybrid system')
     modes = list(hybrid_sys.modes)
+    if disc_params is None:
+        disc_params = {
+            mode: dict(N=1, trans_length=1)
+            for mode in modes}
     mode_nums = hybrid_sys.disc_domain_size
     # discretize each abstraction separately
     abstractions = dict()
-- 
2.43.0


From b209259e91cd9764a026e7c6f1ca5a750ef6cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 49/85] fix: compute inputs also without weight on the final
 state

---
 tulip/abstract/find_controller.py | 41 ++++++++++++++++---------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index c31ca6b..24821b5 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -350,26 +350,27 @@ def get_input(
                     )
                 ] += mid_weight * np.eye(n)
                 r[idx, 0] += -mid_weight * xc
-                try:
-                    u, cost = get_input_helper(
-                        x0, ssys, P1, P3, N, R, r, Q, ord,
-                        closed_loop=closed_loop,
-                        solver=solver)
-                except _InputHelperLPException as ex:
-                    # The end state might consist of several polytopes.
-                    # For some of them there might not be a control action that
-                    # brings the system there. In that case the matrix
-                    # constructed by get_input_helper will be singular and the
-                    # LP solver cannot return a solution.
-                    # This is not a problem unless all polytopes in the end
-                    # region are unreachable, in which case it seems likely that
-                    # there is something wrong with the abstraction routine.
-                    _logger.info(repr(ex))
-                    _logger.info(
-                        'Failed to find control action from continuous '
-                        f'state {x0} in discrete state {start} '
-                        f'to a target polytope in the discrete state {end}.\n'
-                        f'Target polytope:\n{P3}')
+            try:
+                u, cost = get_input_helper(
+                    x0, ssys, P1, P3, N, R, r, Q, ord,
+                    closed_loop=closed_loop,
+                    solver=solver)
+            except _InputHelperLPException as ex:
+                # The end state might consist of several polytopes.
+                # For some of them there might not be a control action that
+                # brings the system there. In that case the matrix
+                # constructed by get_input_helper will be singular and the
+                # LP solver cannot return a solution.
+                # This is not a problem unless all polytopes in the end
+                # region are unreachable, in which case it seems likely that
+                # there is something wrong with the abstraction routine.
+                _logger.info(repr(ex))
+                _logger.info(
+                    'Failed to find control action from continuous '
+                    f'state {x0} in discrete state {start} '
+                    f'to a target polytope in the discrete state {end}.\n'
+                    f'Target polytope:\n{P3}')
+            if mid_weight > 0:
                 r[idx, 0] += mid_weight * xc
             if cost < low_cost:
                 low_u = u
-- 
2.43.0


From b00c61dee51e9f7b647ea8b5484a48dd50839989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:33 +0000
Subject: [PATCH 50/85] fix: do not change the given weights

---
 tulip/abstract/find_controller.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 24821b5..d0e389c 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -278,6 +278,10 @@ def get_input(
         Q = np.eye(N * ssys.B.shape[1])
     if r is None:
         r = np.zeros([N * x0.size, 1])
+    # the weight of the final state is added below,
+    # without changing the given arrays
+    R = np.array(R, dtype=float)
+    r = np.array(r, dtype=float)
     if (R.shape[0] != R.shape[1]) or (R.shape[0] != N * x0.size):
         raise Exception(
             '`R` must be square and '
@@ -371,6 +375,12 @@ def get_input(
                     f'to a target polytope in the discrete state {end}.\n'
                     f'Target polytope:\n{P3}')
             if mid_weight > 0:
+                R[
+                    np.ix_(
+                        range(n * (N - 1), n * N),
+                        range(n * (N - 1), n * N)
+                    )
+                ] -= mid_weight * np.eye(n)
                 r[idx, 0] += mid_weight * xc
             if cost < low_cost:
                 low_u = u
-- 
2.43.0


From e8a58d4fb3daca2dee13c68b520dcf2082138fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:33 +0000
Subject: [PATCH 51/85] fix: try all polytopes of the target with quadratic
 programs too

---
 tulip/abstract/find_controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index d0e389c..3c3a202 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -359,7 +359,9 @@ def get_input(
                     x0, ssys, P1, P3, N, R, r, Q, ord,
                     closed_loop=closed_loop,
                     solver=solver)
-            except _InputHelperLPException as ex:
+            except (
+                    _InputHelperLPException,
+                    _InputHelperQPException) as ex:
                 # The end state might consist of several polytopes.
                 # For some of them there might not be a control action that
                 # brings the system there. In that case the matrix
-- 
2.43.0


From c71633b602a5ac2970878dccdd8771bff8f93865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:33 +0000
Subject: [PATCH 52/85] fix: skip unreachable polytopes of the target in closed
 loop

---
 tulip/abstract/find_controller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 3c3a202..b2a7700 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -462,6 +462,10 @@ def get_input_helper(
                 P1, temp_part, ssys, N=1,
                 closed_loop=False, trans_set=P1
             )
+            if not pc.is_fulldim(temp_part):
+                # no state in `P1` can reach `P3`
+                raise _InputHelperLPException(
+                    'Target polytope is unreachable.')
             list_P.insert(0, temp_part)
         list_P.insert(0, P1)
         L, M = _fsb.createLM(ssys, N, list_P, disturbance_ind=[1])
-- 
2.43.0


From 5330e93669b189578915234d31891360d17affef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:42 +0000
Subject: [PATCH 53/85] fix: constrain intermediate states to the cells used
 for reachability

---
 tulip/abstract/find_controller.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index b2a7700..0f12d5f 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -250,8 +250,10 @@ def get_input(
     part = abstraction.ppp
     regions = part.regions
     ofts = abstraction.ts
-    original_regions = abstraction.orig_ppp
-    orig = abstraction._ppp2orig
+    # cells that preserve both propositions and
+    # the active subsystem, used for reachability
+    original_regions = abstraction.pwa_ppp
+    orig = abstraction._ppp2pwa
     params = abstraction.disc_params
     N = params['N']  # horizon length
     conservative = params['conservative']
@@ -331,10 +333,9 @@ def get_input(
         # Take original proposition preserving cell as constraint
         P1 = original_regions[orig[start]]
         # must be single polytope (ensuring convex)
-        assert len(P1) > 0, P1
         if len(P1) == 1:
             P1 = P1[0]
-        else:
+        elif len(P1) > 1:
             print(P1)
             raise Exception(
                 '`conservative = False` argument requires '
-- 
2.43.0


From f79fdbbea89ceaa5d777591581e835c090603bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:28 +0000
Subject: [PATCH 54/85] fix: test whether columns are inside polytopes in
 is_seq_inside

---
 tulip/abstract/find_controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 0f12d5f..d622699 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -644,11 +644,11 @@ def is_seq_inside(
     for i in range(N - 1):
         u = u_seq[i, :].reshape(u_seq[i, :].size, 1)
         x = A.dot(x) + B.dot(u) + K
-        if not pc.is_inside(P0, x):
+        if x not in P0:
             inside = False
     un_1 = u_seq[N - 1, :].reshape(u_seq[N - 1, :].size, 1)
     xn = A.dot(x) + B.dot(un_1) + K
-    if not pc.is_inside(P1, xn):
+    if xn not in P1:
         inside = False
     return inside
 
-- 
2.43.0


From d81b00d89441754824626cbe2443bff2b7cd4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:21 +0000
Subject: [PATCH 55/85] fix: abstract systems whose action types have other
 names

---
 tulip/transys/transys.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 953a03b..32741dd 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1196,17 +1196,14 @@ def _output_fts(
           maps the nodes of two FTS in
           the other direction.
     """
-    env_actions = [
+    # all action types, with any names
+    actions = [
         dict(
-            name='env_actions',
-            values=ts.env_actions,
-            setter=True)]
-    sys_actions = [
-        dict(
-            name='sys_actions',
-            values=ts.sys_actions,
-            setter=True)]
-    ts_simu = FTS(env_actions, sys_actions)
+            name=name,
+            values=values,
+            setter=True)
+        for name, values in ts.actions.items()]
+    ts_simu = FTS(actions, list())
     ts2simu = dict()
     simu2ts = dict()
     Part_hash = dict(
-- 
2.43.0


From 66dca7fb5daf4f8f2b5d8063040c41185dfe0553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:21 +0000
Subject: [PATCH 56/85] fix: states with equal labels start in the same cell

---
 tulip/transys/transys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 32741dd..54172c4 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1283,7 +1283,7 @@ def simu_abstract(
     hash_ap = dict()
         # map ap to cells in Part
     for node in G:
-        ap = repr(G.nodes[node]['ap'])
+        ap = frozenset(G.nodes[node]['ap'])
         if ap not in S0:
             S0[ap] = set()
             hash_ap[ap] = set()
-- 
2.43.0


From 1fd4f679cb08024b073df31f3ad0542db2e980e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:43 +0000
Subject: [PATCH 57/85] fix: a state of a never claim may be both initial and
 accepting

---
 tulip/interfaces/ltl2ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index a4612fe..b88696d 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -330,7 +330,7 @@ class Parser:
         self.g.add_node(state)
         if 'init' in state:
             self.initial_nodes.add(state)
-        elif 'accept' in state:
+        if 'accept' in state:
             self.accepting_nodes.add(state)
         p[0] = p[1]
 
-- 
2.43.0


From 2a6cbde0d76989bfab4b4d74600cebdd082f2a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:43 +0000
Subject: [PATCH 58/85] fix: parse skip and false statements of never claims

---
 tulip/interfaces/ltl2ba.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index b88696d..25a9a02 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -111,9 +111,11 @@ class Lexer:
             'never':
                 'NEVER',
             'skip':
-                'SKIP'}
+                'SKIP',
+            'false':
+                'FALSE'}
         self.tokens = (
-            'TRUE', 'FALSE',
+            'TRUE',
             'NUMBER',
             'NOT', 'AND', 'OR', 'XOR', 'IMP', 'BIMP',
             'EQUALS', 'NEQUALS', 'LT', 'LE', 'GT', 'GE',
@@ -279,6 +281,19 @@ class Parser:
             self.g.add_edge(u, v, guard=guard)
         p[0] = (u, if_clause)
 
+    def p_clause_skip(self, p):
+        """clause : state COLON SKIP"""
+        # no condition, and remains at this state
+        u = p[1]
+        if_clause = [('(1)', u)]
+        self.g.add_edge(u, u, guard='(1)')
+        p[0] = (u, if_clause)
+
+    def p_clause_false(self, p):
+        """clause : state COLON FALSE SEMI"""
+        # no outgoing transitions
+        p[0] = (p[1], list())
+
     def p_if_clause(self, p):
         """if_clause : IF cases FI SEMI"""
         p[0] = p[2]
-- 
2.43.0


From f8f97332753c9764d8de638ab3f5510598939685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:43 +0000
Subject: [PATCH 59/85] fix: return Buchi automata from ltl2ba

---
 tulip/interfaces/ltl2ba.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index 25a9a02..ec680dd 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -370,14 +370,16 @@ def ltl2ba(
         with Boolean formulas as `str`
     """
     ltl2ba_out = call_ltl2ba(str(formula))
-    parser = ltl2baint.Parser()
+    parser = Parser()
     symbols, g, initial, accepting = parser.parse(ltl2ba_out)
     ba = _trs.BuchiAutomaton()
     ba.atomic_propositions.update(symbols)
     ba.add_nodes_from(g)
-    ba.add_edges_from(g.edges(data=True))
-    ba.initial_nodes = initial
-    ba.accepting_sets = accepting
+    ba.add_edges_from(
+        g.edges(data=True),
+        check=False)
+    ba.states.initial.add_from(initial)
+    ba.accepting.add_from(accepting)
     _logger.info(f'Resulting automaton:\n\n{ba}\n')
     return ba
 
-- 
2.43.0


From 7f06e462ac4498f00b1f3ab0296c8255fb80a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:04 +0000
Subject: [PATCH 60/85] fix: load XML of gr1c with an empty automaton

---
 tulip/interfaces/gr1c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 4099df8..764b34c 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -313,7 +313,7 @@ def load_aut_xml(
     return_now = (
         aut_elem is None or (
         aut_elem.text is None and
-            len(aut_elem.getchildren()) == 0))
+            len(aut_elem) == 0))
     if return_now:
         mach = None
         return (spec, mach)
-- 
2.43.0


From 76644bde5f5adf969a44a95946d039352e2ddb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:04 +0000
Subject: [PATCH 61/85] fix: use namespace for all elements of XML of gr1c

---
 tulip/interfaces/gr1c.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 764b34c..f999fc4 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -284,9 +284,13 @@ def load_aut_xml(
             f'{elem.attrib["version"]}')
     # Extract discrete variables and LTL specification
     tag_name, env_vardict, env_vars = _untagdict(elem.find(
-        ns_prefix+"env_vars"), get_order=True)
+        ns_prefix+"env_vars"),
+        namespace=namespace,
+        get_order=True)
     tag_name, sys_vardict, sys_vars = _untagdict(elem.find(
-        ns_prefix+"sys_vars"), get_order=True)
+        ns_prefix+"sys_vars"),
+        namespace=namespace,
+        get_order=True)
     # variables
     env_vars = _parse_vars(env_vars, env_vardict)
     sys_vars = _parse_vars(sys_vars, sys_vardict)
@@ -334,14 +338,16 @@ def load_aut_xml(
         #     # Assume version 1
         tag_name, this_name_list = _untaglist(
             node.find(f'{ns_prefix}anno'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if len(this_name_list) == 2:
             mode, rgrad = this_name_list
         else:
             mode, rgrad = (-1, -1)
         tag_name, this_child_list = _untaglist(
             node.find(f'{ns_prefix}child_list'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if tag_name != f'{ns_prefix}child_list':
             # This really should never happen and may not even be
             # worth checking.
-- 
2.43.0


From 8267e731e7894c50d9ff5c4574cb54184315f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:04 +0000
Subject: [PATCH 62/85] fix: decode integers of slugs from minimum of domain

---
 tulip/interfaces/slugs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/interfaces/slugs.py b/tulip/interfaces/slugs.py
index 5011959..b8a6375 100644
--- a/tulip/interfaces/slugs.py
+++ b/tulip/interfaces/slugs.py
@@ -154,13 +154,14 @@ def _bitfields_to_ints(
             continue
         bitnames = [
             f'{var}@{i}'
-            for i in range(dom[1].bit_length())]
+            for i in range((dom[1] - dom[0]).bit_length())]
         bitnames[0] = f'{var}@0.{dom[0]}.{dom[1]}'
         bitvalues = [bit_state[b] for b in bitnames]
         # little-endian
         bitvalues = map(str, reversed(bitvalues))
         val = ''.join(bitvalues)
-        int_state[var] = int(val, 2)
+        # bits encode difference from minimum
+        int_state[var] = dom[0] + int(val, 2)
     return int_state
 
 
-- 
2.43.0


From 0b8bfaff3f832269d533822d57e61137142d52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:09 +0000
Subject: [PATCH 63/85] fix: raise error for unknown format in load_mealy

---
 tulip/interfaces/gr1c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index f999fc4..ad7ebc5 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -650,7 +650,7 @@ def load_mealy(
     elif fformat.lower() == 'json':
         strategy = load_aut_json(s)
     else:
-        ValueError(
+        raise ValueError(
             '`gr1c.load_mealy()`: '
             f'Unrecognized file format, "{fformat}"')
     _logger.debug(
-- 
2.43.0


From 30550666ad0e0a8de08e5a7e4ba3baa3e5e74ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:36 +0000
Subject: [PATCH 64/85] fix: add actions of tuple2fts as system actions

---
 tulip/transys/transys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 54172c4..44fd9e6 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -853,7 +853,7 @@ def tuple2fts(
                 f'\t{from_state} ---> {to_state}\n')
             ts.transitions.add(from_state, to_state)
     else:
-        ts.actions |= actions
+        ts.sys_actions |= actions
         for from_state, to_state, act in transitions:
             from_state, to_state = _graphs.prepend_with(
                 [from_state, to_state],
@@ -863,7 +863,7 @@ def tuple2fts(
                 f'{from_state} ---[{act}]---> {to_state}\n')
             ts.transitions.add(
                 from_state, to_state,
-                actions=act)
+                sys_actions=act)
     return ts
 
 
-- 
2.43.0


From c07102cce2774d6d351d5084f637b89a2e230e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:36 +0000
Subject: [PATCH 65/85] fix: label states in tuple2fts also without prefix

---
 tulip/transys/transys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 44fd9e6..a1c0670 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -837,7 +837,8 @@ def tuple2fts(
         for state, ap_label in state_labeling:
             if ap_label is None:
                 ap_label = set()
-            state = f'{prepend_str}{state}'
+            state, = _graphs.prepend_with(
+                [state], prepend_str)
             _logger.debug(
                 f'Labeling state:\n\t{state}\n'
                 f'with label:\n\t{ap_label}\n')
-- 
2.43.0


From 854fc9ce0160321ef3ba6fa85cc672238fc7f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:36 +0000
Subject: [PATCH 66/85] fix: a set of two propositions is not a pair of state
 and label

---
 tulip/transys/transys.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index a1c0670..7d14284 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -781,17 +781,19 @@ def tuple2fts(
                 'The state-labeling function: '
                 '`L -> 2^AP` must be '
                 'defined using an `Iterable`.')
+        state_labeling = list(state_labeling)
         state_label_pairs = True
         # cannot be caught by try below
-        if isinstance(state_labeling[0], str):
-            state_label_pairs = False
-        if state_labeling[0] is None:
-            state_label_pairs = False
+        no_pair = (
+            state_labeling and
+            isinstance(
+                state_labeling[0],
+                str | _abc.Set))
         try:
             state, ap_label = state_labeling[0]
         except:
             state_label_pairs = False
-        if state_label_pairs:
+        if state_label_pairs and not no_pair:
             return state_labeling
         _logger.debug(
             'State labeling `L` not tuples '
-- 
2.43.0


From 9a3d98a4ffd14b78c6ffef074a19963449609a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:36 +0000
Subject: [PATCH 67/85] fix: a string is a single initial state in tuple2fts

---
 tulip/transys/transys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 7d14284..853b485 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -807,7 +807,10 @@ def tuple2fts(
             'States `S` must be iterable, '
             'even for single state.')
     # convention
-    if not isinstance(S0, _abc.Iterable | str):
+    single = (
+        isinstance(S0, str) or
+        not isinstance(S0, _abc.Iterable))
+    if single:
         S0 = [S0]
     # comprehensive names
     states = S
-- 
2.43.0


From 76d209cbbd41070d0e291813e24bbe0bfa599270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:36 +0000
Subject: [PATCH 68/85] fix: strings as labels in line_labeled_with,
 cycle_labeled_with

---
 tulip/transys/transys.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 853b485..ba4039c 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -917,6 +917,11 @@ def line_labeled_with(
         - transitions forming a sequence:
           - s_{i} ---> s_{i+1}, for: 0 <= i < N
     """
+    # single strings are singletons
+    L = [
+        {label} if isinstance(label, str)
+        else label
+        for label in L]
     n = len(L)
     S = range(m, m + n)
     S0 = list()
-- 
2.43.0


From e5f13c9d2f81cd7f4143a347f418bf1264a96290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:36 +0000
Subject: [PATCH 69/85] fix: find states by label in add_initial_states

---
 tulip/transys/transys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index ba4039c..7104893 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1015,7 +1015,9 @@ def add_initial_states(
         `ts.atomic_propositions`)
     """
     for label in ap_labels:
-        new_init_states = ts.states.find(ap='label')
+        new_init_states = [
+            state for state, _ in
+            ts.states.find(ap=label)]
         ts.states.initial |= new_init_states
 
 
-- 
2.43.0


From bfc184cde20473800e5ed519ff5ff318c8042d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:36 +0000
Subject: [PATCH 70/85] fix: add letters to the alphabet in tuple2ba

---
 tulip/transys/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 232950f..ed72fa0 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -360,7 +360,7 @@ def tuple2ba(
         ba.alphabet.math_set.update(
             alphabet_or_ap)
     elif isinstance(ba.alphabet, set):
-        ba.alphabet.add(alphabet_or_ap)
+        ba.alphabet.update(alphabet_or_ap)
     else:
         raise AssertionError(
             f'unexpected case: {ba.alphabet = }')
-- 
2.43.0


From 2cb8a6c7dd2c3df1c6dc671062f1eeb38c10c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:59 +0000
Subject: [PATCH 71/85] fix: initialize LabeledGameGraph

---
 tulip/transys/transys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 7104893..6cffc89 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1142,7 +1142,8 @@ class LabeledGameGraph(
                 ap_labels.math_set,
             default=
                 set())]
-        super().__init__(node_label_types)
+        super().__init__(
+            node_label_types, list())
         self.atomic_propositions = self.ap
         # dot formatting
         self._state_dot_label_format = {
-- 
2.43.0


From f670b1506c63f5799855de172aba36dab65bcea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:59 +0000
Subject: [PATCH 72/85] fix: save closed transition systems as Promela

---
 tulip/transys/transys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 6cffc89..8fbb4cb 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -550,6 +550,8 @@ class FiniteTransitionSystem(
         # "sys_actions" used to be "actions"
         # in closed systems (old FTS)
         action_types = env_actions + sys_actions
+        self._env_action_types = [
+            x['name'] for x in env_actions]
         edge_label_types = action_types
         ap_labels = _mset.PowerSet()
         node_label_types = [
@@ -693,7 +695,7 @@ class FiniteTransitionSystem(
         if fileformat not in file_formats:
             return False
         # closed ?
-        if self.env_vars:
+        if any(map(self.actions.get, self._env_action_types)):
             return False
         s = _pml.fts2promela(self, self.name)
         # dump to file
-- 
2.43.0


From 121e4a767e453cb8059c55139728152e1c432792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:59 +0000
Subject: [PATCH 73/85] fix: assign propositions of initial states in Promela

---
 tulip/transys/export/graph2promela.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index 6643f90..538a5ad 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -121,10 +121,14 @@ def fts2promela(
             s += f'bool {ap};\n'
     s += f'\nactive proctype {procname}(){{\n'
     s += '\t if\n'
+    ap_alphabet = graph.atomic_propositions
     for initial_state in graph.states.initial:
-        s += f'\t :: goto {initial_state}\n'
+        s += (
+            '\t :: atomic{\n'
+            f'{state_ap2promela(initial_state, graph, ap_alphabet)}'
+            f'\t\t goto {initial_state}\n'
+            '\t }\n')
     s += '\t fi;\n'
-    ap_alphabet = graph.atomic_propositions
     for state in graph.states():
         out_transitions = graph.transitions.find(
             {state},
-- 
2.43.0


From 348adc42ae7ec1e480b2be3a26aa2927b1288456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:59 +0000
Subject: [PATCH 74/85] fix: same labels at states and goto statements of
 Promela

---
 tulip/transys/export/graph2promela.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index 538a5ad..c375c49 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -68,6 +68,8 @@ def fts2promela(
         Promela process name (after proctype)
         (default: system name)
     """
+    def promela_label(state) -> str:
+        return str(state).replace(' ', '_')
     def state_ap2promela(
             state,
             graph,
@@ -100,7 +102,7 @@ def fts2promela(
                 '\t :: atomic{\n'
                 f'\t\t printf("{sublabels_dict}\\n");\n'
                 f'{state_ap2promela(to_state, graph, ap_alphabet)}'
-                f'\t\t goto {to_state}\n'
+                f'\t\t goto {promela_label(to_state)}\n'
                 '\t }\n')
         s += '\t fi;\n\n'
         return s
@@ -126,14 +128,14 @@ def fts2promela(
         s += (
             '\t :: atomic{\n'
             f'{state_ap2promela(initial_state, graph, ap_alphabet)}'
-            f'\t\t goto {initial_state}\n'
+            f'\t\t goto {promela_label(initial_state)}\n'
             '\t }\n')
     s += '\t fi;\n'
     for state in graph.states():
         out_transitions = graph.transitions.find(
             {state},
             as_dict=True)
-        s += str(state).replace(' ', '_') + ':'
+        s += promela_label(state) + ':'
         s += trans2promela(
             out_transitions, graph,
             ap_alphabet)
-- 
2.43.0


From dfd30ed82a84c94c14812f8a92f83a36c5421ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:59 +0000
Subject: [PATCH 75/85] fix: states without successors in Promela

---
 tulip/transys/export/graph2promela.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index c375c49..95aa5d0 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -96,6 +96,8 @@ def fts2promela(
             ap_alphabet:
                 _abc.Iterable
             ) -> str:
+        if not transitions:
+            return '\t false;\n\n'
         s = '\t if\n'
         for from_state, to_state, sublabels_dict in transitions:
             s += (
-- 
2.43.0


From ed638f4907b55217d190e94bb23420f00617f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:59 +0000
Subject: [PATCH 76/85] fix: well-formed transitions in SCXML

---
 tulip/transys/export/machine2scxml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/export/machine2scxml.py b/tulip/transys/export/machine2scxml.py
index 5143e55..167ad08 100644
--- a/tulip/transys/export/machine2scxml.py
+++ b/tulip/transys/export/machine2scxml.py
@@ -81,7 +81,7 @@ def mealy2scxml(
             s += (
                 f'{indent(n)}event="input_present" '
                 f'{indent(n)}cond="{sublabel_dict}" '
-                f'{indent(n)}target="{to_state}"/>')
+                f'{indent(n)}target="{to_state}">')
             n = n - 1
             s += f'{indent(n)}</transition>'
         return s
-- 
2.43.0


From c3d1d192c1231d31d1fda7133d0fee4144d8aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:27 +0000
Subject: [PATCH 77/85] fix: export transitions to Promela

---
 tulip/transys/export/graph2promela.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index 95aa5d0..27748fa 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -135,8 +135,7 @@ def fts2promela(
     s += '\t fi;\n'
     for state in graph.states():
         out_transitions = graph.transitions.find(
-            {state},
-            as_dict=True)
+            {state})
         s += promela_label(state) + ':'
         s += trans2promela(
             out_transitions, graph,
-- 
2.43.0


From b4a56a6431523baa3626c96a42b65ba94352b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:50 +0000
Subject: [PATCH 78/85] fix: show accepting states in graphs

---
 tulip/transys/export/graph2dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index aff4c81..11a37a3 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -420,7 +420,7 @@ def _is_accepting(
         ) -> bool:
     """accepting state ?"""
     # no accepting states defined ?
-    if not hasattr(graph.states, 'accepting'):
+    if not hasattr(graph, 'accepting'):
         return False
     return state in graph.accepting
 
-- 
2.43.0


From 0542af77044fd18f8b717a853ac9cc5c1f90e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:20 +0000
Subject: [PATCH 79/85] fix: initial state of machines in SCXML

---
 tulip/transys/export/machine2scxml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/export/machine2scxml.py b/tulip/transys/export/machine2scxml.py
index 167ad08..1b9280b 100644
--- a/tulip/transys/export/machine2scxml.py
+++ b/tulip/transys/export/machine2scxml.py
@@ -92,8 +92,8 @@ def mealy2scxml(
     if len(mealy.states.initial) != 1:
         raise Exception(
             'Must have exactly 1 initial state.\n'
-            f'Got instead:\n\t{mealy.states.initial()}')
-    initial_state = mealy.states.initial()[0]
+            f'Got instead:\n\t{mealy.states.initial}')
+    initial_state, = mealy.states.initial
     s += f'initial="{initial_state}">\n'
     for state in mealy.states():
         s += (
-- 
2.43.0


From c29fc6c65e4cb3c9c32bd0528025aa37166a2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:08 +0000
Subject: [PATCH 80/85] fix: construct systems with from_lti without
 disturbance or offset

---
 tulip/hybrid.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/tulip/hybrid.py b/tulip/hybrid.py
index e04dade..409d4c0 100644
--- a/tulip/hybrid.py
+++ b/tulip/hybrid.py
@@ -536,14 +536,6 @@ class PwaSysDyn:
             domain:
                 Polytope=None
             ) -> 'PwaSysDyn':
-        if A is None:
-            A = list()
-        if B is None:
-            B = list()
-        if E is None:
-            E = list()
-        if K is None:
-            K = list()
         lti_sys = LtiSysDyn(
             A, B, E, K, Uset, Wset, domain)
         return cls([lti_sys], domain)
@@ -850,14 +842,6 @@ class SwitchedSysDyn:
             domain:
                 Polytope=None
             ) -> 'SwitchedSysDyn':
-        if A is None:
-            A = list()
-        if B is None:
-            B = list()
-        if E is None:
-            E = list()
-        if K is None:
-            K = list()
         pwa_sys = PwaSysDyn.from_lti(
             A, B, E, K,
             Uset, Wset, domain)
-- 
2.43.0


From 696f3366029300a114492e7e3cde4bc3888644cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:25 +0000
Subject: [PATCH 81/85] fix: write exact probabilities to PRISM files

---
 tulip/interfaces/stormpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index 8aac79c..36fe114 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -290,7 +290,7 @@ def to_prism_file(
         return transition_dict
     # Return a properly formatted string for the given probability
     def get_prob_str(prob):
-        return f'{prob:.4f}'
+        return str(prob)
     # Return a string representing the
     # state with the given index and whether
     # it is primed (primed in prism file
-- 
2.43.0


From 33f355ce2cc5363d4319063657a98da6a77d938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:25 +0000
Subject: [PATCH 82/85] fix: write labels that hold nowhere to PRISM files

---
 tulip/interfaces/stormpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index 36fe114..fb3a3b0 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -355,7 +355,7 @@ def to_prism_file(
             state_str = '|'.join(
                 ['(' + get_state_str(state_list.index(s), False) + ')'
                  for s in states]
-            )
+            ) or 'false'
             f.write(
                 f'label "{label}" = {state_str};\n')
 
-- 
2.43.0


From 5206c318f43a02c11933d021db738174cdb8405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:25 +0000
Subject: [PATCH 83/85] fix: map actions of stormpy separately at each state

---
 tulip/interfaces/stormpy.py | 84 +++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index fb3a3b0..e008e98 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -78,27 +78,29 @@ def get_action_map(
         tulip_transys:
             MDP
         ) -> dict[
-            str,
+            tuple[str, str],
             list]:
     """Get a map of action of `stormpy_model` and that of `tulip_transys`.
 
+    Actions of `stormpy_model` are numbered
+    separately in each state.
+
     @return:
         a dictionary whose key is
-        the string representation of an action of `stormpy_model`
-        and value is the corresponding action of `tulip_transys`
+        the string representation of a state and
+        of an action at that state of `stormpy_model`
+        and value is a list of the corresponding actions
+        of `tulip_transys`
     """
     action_map = dict()
     for from_state_stormpy in stormpy_model.states:
         from_state_tulip = to_tulip_state(
             from_state_stormpy, tulip_transys)
         for stormpy_action in from_state_stormpy.actions:
-            possible_actions = action_map.get(str(stormpy_action))
-            if possible_actions is None:
-                action_map[str(stormpy_action)] = list(
-                    tulip_transys.actions)
-                possible_actions = action_map[str(stormpy_action)]
-            _update_possible_actions_with_transitions(
-                possible_actions,
+            key = (
+                str(from_state_stormpy),
+                str(stormpy_action))
+            action_map[key] = _find_possible_actions(
                 stormpy_model,
                 tulip_transys,
                 from_state_tulip,
@@ -108,27 +110,30 @@ def get_action_map(
 
 
 def to_tulip_action(
+        stormpy_state,
         stormpy_action,
         stormpy_model,
         tulip_transys:
             MDP,
         action_map:
-            dict[str, list] |
+            dict[tuple[str, str], list] |
             None=None):
     """Return action of `tulip_transys` on model.
 
     Get an action of `tulip_transys` that
-    corresponds to `stormpy_action` on `stormpy_model`.
+    corresponds to `stormpy_action` at `stormpy_state`
+    on `stormpy_model`.
 
     The computation is based on the transition probability,
-    i.e., it returns an action such that, from each pair of
-    source and target state, the transition probability
+    i.e., it returns an action such that, from the source state
+    to each target state, the transition probability
     matches that of `stormpy_action`.
     """
     if action_map is None:
         action_map = get_action_map(
             stormpy_model, tulip_transys)
-    possible_tulip_action = action_map[str(stormpy_action)]
+    possible_tulip_action = action_map[
+        str(stormpy_state), str(stormpy_action)]
     if len(possible_tulip_action) == 0:
         raise ValueError(
             'Cannot find an action on '
@@ -436,7 +441,7 @@ def _extract_policy(
         tulip_policy.add(
             tulip_state,
             to_tulip_action(
-                action, stormpy_model,
+                state, action, stormpy_model,
                 tulip_transys, action_map),
             to_tulip_labels(state, tulip_transys))
     return tulip_policy
@@ -461,42 +466,41 @@ def _extract_probability(
     return probability
 
 
-def _update_possible_actions_with_transitions(
-        possible_actions:
-            list,
+def _find_possible_actions(
         stormpy_model,
         tulip_transys:
             MC,
         from_state_tulip,
         stormpy_transitions,
         prob_tol:
-            float=1e-6):
-    """Return subset of `possible_actions` according to conditions.
+            float=1e-6
+        ) -> list:
+    """Return actions with the same effect as `stormpy_transitions`.
 
-    Return a subset of `possible_actions` from
+    Return a list of the actions at
     `from_state_tulip`, such that the probability of
     transition to each state matches `stormpy_transitions`
     with the given `prob_tol`.
     """
+    expected = dict()
     for stormpy_transition in stormpy_transitions:
         to_state_tulip = to_tulip_state(
             stormpy_model.states[stormpy_transition.column],
             tulip_transys)
-        probability = stormpy_transition.value()
-        transitions = tulip_transys.transitions.find(
-            from_state_tulip,
-            [to_state_tulip])
-        for tulip_transition in transitions:
-            prob = abs(
-                tulip_transition[2][
-                    MC.probability_label] -
-                probability)
-            pred = prob > prob_tol
-            if not pred:
-                continue
-            try:
-                idx = possible_actions.index(
-                    tulip_transition[2][MDP.action_label])
-                possible_actions.pop(idx)
-            except ValueError:
-                pass
+        expected[to_state_tulip] = stormpy_transition.value()
+    probabilities = dict()
+    for _, to_state, attr in tulip_transys.transitions.find(
+            from_state_tulip):
+        action = attr[MDP.action_label]
+        probabilities.setdefault(action, dict())
+        probabilities[action][to_state] = attr[
+            MC.probability_label]
+    possible_actions = list()
+    for action, actual in probabilities.items():
+        mismatch = any(
+            abs(actual.get(state, 0) -
+                expected.get(state, 0)) > prob_tol
+            for state in set(actual).union(expected))
+        if not mismatch:
+            possible_actions.append(action)
+    return possible_actions
-- 
2.43.0


From 523829657eb9ba6f43846a19640302cb9d0ddaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:53 +0000
Subject: [PATCH 84/85] fix: interactive run of a Mealy machine moves to the
 next state

After a selection was recognized, the loop that reads selections continued
forever, and the state of the run was never updated.
---
 tulip/transys/machines.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index 80720fe..b2b1e05 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -888,7 +888,8 @@ def interactive_run(
     while True:
         print(
             f'\n Current state: {state}')
-        if _interactive_run_step(mealy, state) is None:
+        state = _interactive_run_step(mealy, state)
+        if state is None:
             break
 
 
@@ -896,7 +897,8 @@ def _interactive_run_step(
         mealy:
             MealyMachine,
         state
-        ) -> bool | None:
+        ):
+    """Return next state, or `None` to stop."""
     if state is None:
         raise Exception('Current state is None')
     # note: the spaghettiness of
@@ -913,7 +915,8 @@ def _interactive_run_step(
     while True:
         try:
             selected_trans = _select_transition(mealy, trans)
-        except:
+            break
+        except (ValueError, IndexError):
             print(
                 'Selection not recognized. '
                 'Please try again.')
@@ -929,7 +932,7 @@ def _interactive_run_step(
         f', to state: {to_state}\n'
         f'given inputs: {inputs}\n'
         f'reacting with outputs: {outputs}')
-    return True
+    return to_state
 
 
 def _select_transition(
-- 
2.43.0


From 8c7cdf340f2caf3fdd73c391bc91f9ad108e83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:57 +0000
Subject: [PATCH 85/85] fix: export controllers with inputs named output or
 self

The generated method `move` assigned its result to `output`, hiding an
input of that name, and an input `self` was a duplicate argument.
---
 tulip/dumpsmach.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index 020b16a..4a5c0b3 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -86,6 +86,14 @@ def python_case(
     input_vars = [input_var for input_var in M.inputs] if M.inputs else []
     input_args = ', '.join(input_vars)
     input_args_str = ', '.join(map(repr, input_vars))
+    # variables of the generated code,
+    # different from names of inputs
+    def fresh(name):
+        while name in M.inputs:
+            name = f'_{name}'
+        return name
+    this = fresh('self')
+    output = fresh('output')
     code = (
         'class {classname}:\n'
         '{t}"""Mealy transducer.\n'
@@ -100,18 +108,18 @@ def python_case(
         '{t}Automatically generated by tulip.dumpsmach on {date}\n'
         '{t}To learn more about TuLiP, visit http://tulip-control.org\n'
         '{t}"""\n'
-        '{t}def __init__(self):\n'
-        '{t2}self.state = {sinit}\n'
-        '{t2}self.input_vars = [{input_args_str}]\n'
+        '{t}def __init__({this}):\n'
+        '{t2}{this}.state = {sinit}\n'
+        '{t2}{this}.input_vars = [{input_args_str}]\n'
         '\n'
-        '{t}def move(self, {input_args}) -> dict:\n'
+        '{t}def move({this}, {input_args}) -> dict:\n'
         '{t2}"""Given inputs, take move and return outputs.\n'
         '\n'
         '{t2}@return:\n'
         '{t2}    dictionary with keys of the output variable names:\n'
         '{t2}    {outputs}\n'
         '{t2}"""\n'
-        '{t2}output = dict()\n'
+        '{t2}{output} = dict()\n'
         ).format(
             classname=classname,
             t=tab,
@@ -120,7 +128,9 @@ def python_case(
             sinit=node_to_int[start],
             input_args_str=input_args_str,
             input_args=input_args,
-            outputs=list(map(str, M.outputs)))
+            outputs=list(map(str, M.outputs)),
+            this=this,
+            output=output)
     # cached generator
     ifs = lambda: _itr.chain(['if'], _itr.repeat('elif'))
     proj = lambda d, keys: ((k, d[k]) for k in d if k in keys)
@@ -138,43 +148,46 @@ def python_case(
             else:
                 guard = 'True'
             outputs = ''.join(
-                f'{4 * tab}output["{k}"] = {v}\n'
+                f'{4 * tab}{output}["{k}"] = {v}\n'
                 for k, v in proj(d, M.outputs))
             target_id = node_to_int[w]
             edges.append(
                 f'{3 * tab}{ifw} {guard}:\n'
-                f'{4 * tab}self.state = {target_id}\n'
+                f'{4 * tab}{this}.state = {target_id}\n'
                 '\n'
                 f'{outputs}')
         # handle invalid inputs or dead-end
         if edges and M.inputs:
             edges.append(
                 f'{3 * tab}else:\n'
-                f'{4 * tab}self._error({input_args})\n')
+                f'{4 * tab}{this}._error({input_args})\n')
         elif not edges:
             edges.append(
                 f'{3 * tab}raise RuntimeError('
                 '"Reached dead-end state !")\n')
         # each state
         c.append((
-            '{t2}{ifu} self.state == {node_id}:\n'
+            '{t2}{ifu} {this}.state == {node_id}:\n'
             '{edges}').format(
                 t2=2*tab,
                 ifu=ifu,
+                this=this,
                 node_id=node_to_int[u],
                 edges=''.join(edges)))
     code += ''.join(c) + (
             '{t2}else:\n'
             '{t3}raise AssertionError("Unrecognized internal state: " + '
-            'str(self.state))\n'
-            '{t2}return output\n'
+            'str({this}.state))\n'
+            '{t2}return {output}\n'
             '\n'
-            '{t}def _error(self, {input_args}):\n'
+            '{t}def _error({this}, {input_args}):\n'
             '{t2}raise ValueError("Unrecognized input: " + ('
             '{inputs}).format({args}))\n').format(
                 t=tab,
                 t2=2*tab,
                 t3=3*tab,
+                this=this,
+                output=output,
                 input_args=input_args,
                 inputs=''.join(
                     '\n{t}"{v} = {{{v}}}; "'.format(v=v, t=3*tab)
-- 
2.43.0

