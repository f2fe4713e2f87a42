From 8095825e9f0e79c006323763ecbc0875a624e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:56 +0000
Subject: [PATCH 01/27] fix: do not treat AND and OR conjunctions over the same
 conditions as equivalent

Two hyperparameters, one conditioned by an AndConjunction and the other by an
OrConjunction of the same conditions, shared one condition node and were
activated together.
---
 src/ConfigSpace/conditions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index f7bd20d..b969580 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -458,18 +458,21 @@ class Conjunction:
         return self.parents
 
     def equivalent_condition_on_parent(self, other: ConditionLike) -> bool:
-        # Not entirely true but it's a good enough approximation
-        if not isinstance(other, Conjunction):
+        # An AND and an OR over the same components are not equivalent
+        if not isinstance(other, self.__class__):
             return False
 
         if len(self.components) != len(other.components):
             return False
 
-        # Each condition must match at one of the other conditions, which is of the same
-        # conjunction type and has equal amount of components
+        # Each condition must match at one of the other conditions and vice versa,
+        # where other is of the same conjunction type and has equal amount of components
         return all(
             any(c.equivalent_condition_on_parent(o) for o in other.components)
             for c in self.components
+        ) and all(
+            any(o.equivalent_condition_on_parent(c) for c in self.components)
+            for o in other.components
         )
 
     @abstractmethod
-- 
2.43.0


From b45951dea99ad582d6659caf46bfcf11a3af989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:56 +0000
Subject: [PATCH 02/27] fix: evaluate conditions only after the conditions of
 all their parents

Conditions were ordered by their shallowest parent. A conjunction with parents
of different depth could be evaluated before a deeper parent was deactivated,
leaving its child active while that parent was inactive.
---
 src/ConfigSpace/_condition_tree.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 30fbac9..82e9f20 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -589,10 +589,11 @@ class DAG:
             if a is not b:
                 assert a.unique_children.keys().isdisjoint(b.unique_children.keys())
 
-        def shallowest_parent(_x: ConditionNode) -> int:
-            return min(self.nodes[_p].maximum_depth for _p in _x.node_parents())
+        # A condition can only be evaluated once all its parents are settled
+        def deepest_parent(_x: ConditionNode) -> int:
+            return max(self.nodes[_p].maximum_depth for _p in _x.node_parents())
 
-        self.minimum_conditions = sorted(minimum_conditions, key=shallowest_parent)
+        self.minimum_conditions = sorted(minimum_conditions, key=deepest_parent)
 
         condition_trees = {id(c): c for c in self.minimum_conditions}
         updated = True
@@ -605,12 +606,12 @@ class DAG:
 
                 if b.depends_on(a):
                     a.dependants.append(b)
-                    a.dependants = sorted(a.dependants, key=shallowest_parent)
+                    a.dependants = sorted(a.dependants, key=deepest_parent)
                     if id(b) in condition_trees:
                         condition_trees.pop(id(b))
                     updated = True
 
-        sorted_condition_trees = sorted(condition_trees.values(), key=shallowest_parent)
+        sorted_condition_trees = sorted(condition_trees.values(), key=deepest_parent)
 
         # Now we go through the trees and update the lookup
         # Note that it's possible to have reconverging paths, i.e.
@@ -627,7 +628,7 @@ class DAG:
                     self.change_hp_lookup[parent].extend([tree, *tree.dependants])
                     self.change_hp_lookup[parent] = sorted(
                         self.change_hp_lookup[parent],
-                        key=shallowest_parent,
+                        key=deepest_parent,
                     )
 
             trees.extend(tree.dependants)
-- 
2.43.0


From 79193146f18647aaaaed0b6f38217e858cf4e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:56 +0000
Subject: [PATCH 03/27] fix: a NotEqualsCondition is not satisfied by an
 inactive parent

The vector form compared NaN with the value, which is always unequal. The child
was thus active while its parent was not, unlike in the value form.
---
 src/ConfigSpace/conditions.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index b969580..894f260 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -239,6 +239,17 @@ class NotEqualsCondition(BinaryOpCondition):
     _OP = operator.ne
     _VECTOR_OP = operator.ne
 
+    # NaN marks an inactive parent, which never satisfies a condition but
+    # compares as not equal to everything.
+    def satisfied_by_vector(self, vector: Array[f64]) -> bool:
+        if np.isnan(vector[self.parent_vector_id]):
+            return False
+        return super().satisfied_by_vector(vector)
+
+    def satisfied_by_vector_array(self, arr: Array[f64]) -> Mask:
+        active = ~np.isnan(arr[self.parent_vector_id])
+        return active & super().satisfied_by_vector_array(arr)
+
 
 class LessThanCondition(BinaryOpCondition):
     """Hyperparameter `child` is conditional on the `parent` hyperparameter
-- 
2.43.0


From 0447cdb11e0c47bd5b34c1a55f8b04e86e1c196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:56 +0000
Subject: [PATCH 04/27] fix: one inactive parent does not deactivate the child
 of an OrConjunction

get_active_hyperparameters reported a child as inactive as soon as any parent
was inactive, while sampling and validation consider it active when another
branch of the disjunction holds.
---
 src/ConfigSpace/configuration_space.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index c0c0ecc..a9959e1 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -512,17 +512,6 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             active = True
             for condition in conditions:
-                parent_vector_idx: np.intp | Array[np.intp]
-                if isinstance(condition, Conjunction):
-                    assert condition.parent_vector_ids is not None
-                    parent_vector_idx = condition.parent_vector_ids
-                else:
-                    parent_vector_idx = np.asarray(condition.parent_vector_id)
-
-                if np.isnan(vector[parent_vector_idx]).any():
-                    active = False
-                    break
-
                 if not condition.satisfied_by_vector(vector):
                     active = False
                     break
-- 
2.43.0


From 8bc26e3041d27185565bf92d39de07c0f4bbc755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:56 +0000
Subject: [PATCH 05/27] fix: check the legality of unconditional
 hyperparameters in a vector

check_configuration only checked conditional hyperparameters, so a vector with
an illegal value for an unconditional one was accepted as valid.
---
 src/ConfigSpace/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index f93baab..823f93c 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -580,6 +580,9 @@ def check_configuration(  # noqa: D103
         if not activated[hp_idx]:
             raise ActiveHyperparameterNotSetError(root.hp)
 
+        if not root.hp._transformer.legal_vector_single(vector[hp_idx]):
+            raise IllegalVectorizedValueError(root.hp, vector[hp_idx])
+
     for cnode in space._dag.minimum_conditions:
         # Everything for the condition is satisfied, make sure active
         # hyperparameters are set, legal and not forbidden
-- 
2.43.0


From ce4604706574e3bb7094f6972ce898e6a35b5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:56 +0000
Subject: [PATCH 06/27] fix: check all forbidden clauses for one-exchange
 neighbors

Only clauses mentioning the changed hyperparameter were checked, although the
change can activate children whose defaults violate other clauses.
---
 src/ConfigSpace/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 823f93c..08424d6 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -326,7 +326,8 @@ def get_one_exchange_neighbourhood(
             )
 
             is_valid = True
-            for forbidden in space._dag.forbidden_lookup.get(hp_name, []):
+            # Changing this hp can activate others, so all forbiddens are relevant
+            for forbidden in space._dag.fast_forbidden_checks:
                 if forbidden.is_forbidden_vector(new_arr):
                     is_valid = False
                     break
-- 
2.43.0


From b65b67ca12bcfd64fcfa80d3a81aa7869f7fec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 07/27] fix: get_random_neighbor gives up after 10000
 rejections as documented

It looped forever when every neighbor was rejected.
---
 src/ConfigSpace/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 08424d6..acd311d 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -375,6 +375,7 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
     """
     random = np.random.RandomState(seed)
     rejected = True
+    n_rejected = 0
     values = copy.deepcopy(dict(configuration))
     new_configuration = None
 
@@ -426,6 +427,11 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
             rejected = False
         except ValueError:
             values[hp.name] = previous_value
+            n_rejected += 1
+            if n_rejected > 10000:
+                raise ValueError(
+                    "Could not find a neighbor, too many were rejected.",
+                ) from None
 
     assert new_configuration is not None
     return new_configuration
-- 
2.43.0


From dedb9db29081adecd1b31908cc1e8448d4ae09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 08/27] fix: copying a forbidden clause copies its
 hyperparameter

The copy shared the hyperparameter, so add_configuration_space renamed the
hyperparameters of the space that was being added.
---
 src/ConfigSpace/forbidden.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/forbidden.py b/src/ConfigSpace/forbidden.py
index 5eb535d..050b427 100644
--- a/src/ConfigSpace/forbidden.py
+++ b/src/ConfigSpace/forbidden.py
@@ -360,7 +360,10 @@ class ForbiddenEqualsClause(ForbiddenClause):
         return f"Forbidden: {self.hyperparameter.name} == {self.value!r}"
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, value=self.value)
+        return self.__class__(
+            hyperparameter=copy(self.hyperparameter),
+            value=self.value,
+        )
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
@@ -452,7 +455,10 @@ class ForbiddenInClause(ForbiddenClause):
         return all(value in other.values for value in self.values)
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, values=self.values)
+        return self.__class__(
+            hyperparameter=copy(self.hyperparameter),
+            values=self.values,
+        )
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
-- 
2.43.0


From 892abcd5d2782b4afe1812197584bbed82c960fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 09/27] fix: keep nested conjunctions when substituting
 hyperparameters

The literal conditions were recombined under the outermost conjunction type,
so an OR inside an AND became part of the AND.
---
 src/ConfigSpace/configuration_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index a9959e1..ca25f6d 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -711,7 +711,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for condition in conditions:
             if isinstance(condition, Conjunction):
                 conjunction_type = type(condition)
-                children = condition.dlcs
+                children = condition.components
                 substituted_children = (
                     ConfigurationSpace.substitute_hyperparameters_in_conditions(
                         children,
-- 
2.43.0


From 71c1bd023a6ad8cdc7ffa25a513f404ea814b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 10/27] fix: categorical neighborhoods return at most n
 neighbors

Small categoricals ignored n and returned all other choices.
---
 src/ConfigSpace/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index bf39514..b95e759 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -78,7 +78,7 @@ class NeighborhoodCat(Neighborhood):
         if self._cached_neighbors is not None:
             choices = self._cached_neighbors[pivot].copy()
             seed.shuffle(choices)
-            return choices
+            return choices[:n]
 
         if self._cached_arange is not None:
             _range = self._cached_arange
-- 
2.43.0


From 20186cf8598651b749da9c5df3d82bc2b7ba6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 11/27] fix: exhaustive neighborhoods of discretized
 distributions stay on the grid

One point too many was spread below the center, so the neighbors were not legal
vectors of the integer hyperparameter.
---
 src/ConfigSpace/hyperparameters/distributions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 993e72a..dba3986 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -659,11 +659,16 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
                 stepsize = (upper - lower) / (self.steps - 1)
 
                 # Edge case for when qcenter is the lower bound
-                steps_to_take = int((qvector - lower) / stepsize) + 1
+                steps_to_take = int(np.rint((qvector - lower) / stepsize)) + 1
                 if steps_to_take == 1:
                     bottom = np.array([])
                 else:
-                    bottom = np.linspace(lower, qvector, steps_to_take, endpoint=False)
+                    bottom = np.linspace(
+                        lower,
+                        qvector,
+                        steps_to_take - 1,
+                        endpoint=False,
+                    )
 
                 top = np.linspace(qvector + stepsize, upper, steps - steps_to_take)
 
-- 
2.43.0


From 4697d1a6784c431acc80279a1e92548b99c167a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 12/27] fix: arange_chunked yields all elements for a step
 other than 1

---
 src/ConfigSpace/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/functional.py b/src/ConfigSpace/functional.py
index 02d6438..8eb7dbf 100644
--- a/src/ConfigSpace/functional.py
+++ b/src/ConfigSpace/functional.py
@@ -74,8 +74,8 @@ def arange_chunked(
     n_chunks = int(np.ceil(n_items / chunk_size))
 
     for chunk in range(n_chunks):
-        chunk_start = start + (chunk * chunk_size)
-        chunk_stop = min(chunk_start + chunk_size, stop)
+        chunk_start = start + (chunk * chunk_size * step)
+        chunk_stop = min(chunk_start + (chunk_size * step), stop)
         yield np.arange(chunk_start, chunk_stop, step)
 
 
-- 
2.43.0


From 43e588906577802102982042d32b7eb667d6ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 13/27] fix: serialize the meta data of a configuration space

It was dropped, so a decoded space was not equal to the encoded one.
---
 src/ConfigSpace/configuration_space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index ca25f6d..b1dfa96 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -982,6 +982,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
         return {
             "name": self.name,
+            "meta": self.meta,
             "hyperparameters": [enc(hp, enc) for hp in self.values()],
             "conditions": [enc(c, enc) for c in self.conditions],
             "forbiddens": [enc(f, enc) for f in self.forbidden_clauses],
@@ -1042,7 +1043,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             return dec
 
-        space = ConfigurationSpace(name=d.get("name"))
+        space = ConfigurationSpace(name=d.get("name"), meta=d.get("meta"))
         _hyperparameters = d.get("hyperparameters", [])
         _conditions = d.get("conditions", [])
         _forbiddens = d.get("forbiddens", [])
-- 
2.43.0


From 9a5c918cba9637646ba610e717a723cf64ff4dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 14/27] fix: decoding a serialized space leaves the given
 dictionary unchanged

The type entries were removed from it, so it could not be decoded twice.
---
 src/ConfigSpace/configuration_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index b1dfa96..1ac2f7e 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -1024,6 +1024,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                 cs: ConfigurationSpace,
                 _dec: _Decoder,
             ) -> Any:
+                item = dict(item)
                 _type = item.pop("type", None)
                 if _type is None:
                     raise KeyError(
-- 
2.43.0


From 275e557c8f6ee355b8f531a03597c901115bee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 15/27] fix: deactivate descendants of hyperparameters which
 have no value

The search stopped at an inactive hyperparameter without a value, leaving set
values of its descendants, which then raised an error.
---
 src/ConfigSpace/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index acd311d..01aecb4 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -488,10 +488,7 @@ def deactivate_inactive_hyperparameters(
             for condition in space.parent_conditions_of[child.name]:
                 if not condition.satisfied_by_vector(config.get_array()):
                     dic = dict(config)
-                    try:
-                        del dic[child.name]
-                    except KeyError:
-                        continue
+                    dic.pop(child.name, None)
 
                     config = Configuration(
                         configuration_space=space,
-- 
2.43.0


From be7e2a731cfcbe5619c856fc55d996a97e99d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 16/27] fix: generate_grid handles conjunctions with an
 inactive parent

Evaluating the conjunction raised a KeyError for the parent without a value.
---
 src/ConfigSpace/util.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 01aecb4..83c7366 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -35,6 +35,7 @@ from typing import TYPE_CHECKING, Any, cast
 import numpy as np
 
 from ConfigSpace import Configuration
+from ConfigSpace.conditions import Conjunction
 from ConfigSpace.exceptions import (
     ActiveHyperparameterNotSetError,
     ForbiddenValueError,
@@ -815,7 +816,17 @@ def generate_grid(
                         for cond in configuration_space.parent_conditions_of[
                             new_hp_name
                         ]:
-                            if not cond.satisfied_by_value(unchecked_grid_pts[0]):
+                            cond_dlcs = (
+                                cond.dlcs if isinstance(cond, Conjunction) else [cond]
+                            )
+                            parent_values = {
+                                c.parent.name: unchecked_grid_pts[0].get(
+                                    c.parent.name,
+                                    NotSet,
+                                )
+                                for c in cond_dlcs
+                            }
+                            if not cond.satisfied_by_value(parent_values):
                                 all_cond_ = False
                         if all_cond_:
                             new_active_hp_names.append(new_hp_name)
-- 
2.43.0


From ea50b05712a821dd69ceeac78be85238b493491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 17/27] fix: equal configurations have the same hash

The hash depended on the representation of the values, which differs between
equal values such as a string and a numpy string.
---
 src/ConfigSpace/configuration.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index 1b556f7..7cab671 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -245,7 +245,14 @@ class Configuration(Mapping[str, Any]):
         return NotImplemented
 
     def __hash__(self) -> int:
-        return hash(self.__repr__())
+        # Equal values can have different representations, e.g. `1` and `1.0`
+        items = []
+        for key, value in self.items():
+            try:
+                items.append((key, hash(value)))
+            except TypeError:
+                items.append((key, 0))
+        return hash(frozenset(items))
 
     def __str__(self) -> str:
         values = dict(self)
-- 
2.43.0


From d47ed0705e87d9d6f60f409bffbf3f3bc40ca2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 18/27] fix: reject the empty string as an unknown
 hyperparameter name

---
 src/ConfigSpace/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index 7cab671..a07698f 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -96,7 +96,7 @@ class Configuration(Mapping[str, Any]):
 
         if values is not None:
             unknown_keys = values.keys() - self.config_space.keys()
-            if any(unknown_keys):
+            if len(unknown_keys) > 0:
                 raise ValueError(f"Unknown hyperparameter(s) {unknown_keys}")
 
             # Using cs._hyperparameters to iterate makes sure that the hyperparameters
-- 
2.43.0


From 7da0b889b448a860608ad9c6a11196dcda271644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 19/27] fix: a vector rounding to an index past the last choice
 is not legal

It was reported as legal, but raised an IndexError when decoded.
---
 src/ConfigSpace/hyperparameters/hp_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index bafc306..ea30b4d 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -215,7 +215,7 @@ class TransformerSeq(Transformer[Any]):
     def legal_vector(self, vector: Array[f64]) -> Mask:
         return (
             (vector >= 0)
-            & (vector < len(self.seq))
+            & (np.rint(vector) < len(self.seq))
             & is_close_to_integer(vector, atol=ATOL)
         )
 
@@ -229,7 +229,7 @@ class TransformerSeq(Transformer[Any]):
     def legal_vector_single(self, vector: np.number) -> bool:
         return bool(
             vector >= 0
-            and vector < len(self.seq)
+            and np.rint(vector) < len(self.seq)
             and is_close_to_integer_single(vector, atol=ATOL),
         )
 
-- 
2.43.0


From 3f9760ea6de3a2b1f66a4134d159a2a4c1197848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 20/27] fix: the neighborhood of a constant is empty

An uninitialised array holding one arbitrary number was returned.
---
 src/ConfigSpace/hyperparameters/constant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/constant.py b/src/ConfigSpace/hyperparameters/constant.py
index 0fe8a58..8468323 100644
--- a/src/ConfigSpace/hyperparameters/constant.py
+++ b/src/ConfigSpace/hyperparameters/constant.py
@@ -20,7 +20,7 @@ CONSTANT_VECTOR_VALUE_NO = f64(0)
 
 
 def _empty_neighborhood(*_: Any, **__: Any) -> Array[f64]:
-    return np.ndarray([], dtype=f64)
+    return np.array([], dtype=f64)
 
 
 @dataclass(init=False)
-- 
2.43.0


From 046876612bf6fc13cb89d944677f483742f279e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:46 +0000
Subject: [PATCH 21/27] fix: log-scaled normal and beta integers sample legal
 vectors

The vectorized space was divided evenly, but the integers are not evenly spaced
in it, so sampled vectors and neighbors did not represent integers.
The densities are unchanged.
---
 src/ConfigSpace/hyperparameters/beta_integer.py   | 13 +++++++++++++
 src/ConfigSpace/hyperparameters/normal_integer.py | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/beta_integer.py b/src/ConfigSpace/hyperparameters/beta_integer.py
index a1495aa..b421b1c 100644
--- a/src/ConfigSpace/hyperparameters/beta_integer.py
+++ b/src/ConfigSpace/hyperparameters/beta_integer.py
@@ -146,6 +146,19 @@ class BetaIntegerHyperparameter(IntegerHyperparameter):
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
         )
+        if self.log:
+            # The integers are not evenly spaced in the vectorized space, make sure
+            # that only their vectorized values are sampled.
+            vector_dist = DiscretizedContinuousScipyDistribution(
+                rv=vector_dist.rv,
+                steps=vector_dist.steps,
+                lower_vectorized=vector_dist.lower_vectorized,
+                upper_vectorized=vector_dist.upper_vectorized,
+                log_scale=True,
+                transformer=scaler,
+                _max_density=vector_dist.max_density(),
+                _pdf_norm=vector_dist._pdf_normalization_constant(),
+            )
 
         super().__init__(
             name=name,
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index a975068..f7585b9 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -150,6 +150,19 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
         )
+        if self.log:
+            # The integers are not evenly spaced in the vectorized space, make sure
+            # that only their vectorized values are sampled.
+            vector_dist = DiscretizedContinuousScipyDistribution(
+                rv=vector_dist.rv,
+                steps=vector_dist.steps,
+                lower_vectorized=vector_dist.lower_vectorized,
+                upper_vectorized=vector_dist.upper_vectorized,
+                log_scale=True,
+                transformer=scaler,
+                _max_density=vector_dist.max_density(),
+                _pdf_norm=vector_dist._pdf_normalization_constant(),
+            )
         super().__init__(
             name=name,
             size=int(size),
-- 
2.43.0


From 1501e38b9b577c33d30442cf023e5351c142cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:59 +0000
Subject: [PATCH 22/27] fix: integer vectors are judged the same one by one and
 as an array

With bounds far from zero, the array form accepted vectors between two integers
which the scalar form rejects.
---
 src/ConfigSpace/hyperparameters/hp_components.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index ea30b4d..e829217 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -382,6 +382,13 @@ class UnitScaler(Transformer[DType]):
             # as a quick check, giving us back integer values. However this does
             # not apply generally to a log-scale vector as the non-linear scaling
             # will not give us back integer values when doing the above.
+            if not self.log:
+                return (
+                    (vector >= self.lower_vectorized)
+                    & (vector <= self.upper_vectorized)
+                    & is_close_to_integer(vector * self._size, atol=ATOL)
+                )
+
             unchecked_values = self._unsafe_to_value(vector.astype(f64))
             return self.legal_value(unchecked_values)
 
-- 
2.43.0


From b816d1cd8a49b0e4f44084503b3940e0260f457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:42 +0000
Subject: [PATCH 23/27] fix: sampled and neighboring log-scaled integers have
 the vector of their value

---
 src/ConfigSpace/hyperparameters/distributions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index dba3986..e536553 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -533,12 +533,16 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
             return quantize(x, bounds=vectorized_bounds, bins=self.steps)
 
         assert self.original_value_scale
-        return quantize_log(
+        assert self.transformer is not None
+        quantized = quantize_log(
             x,
             bounds=vectorized_bounds,
             scale_slice=(self.original_value_scale),
             bins=self.steps,
         )
+        # Make sure that equal values have exactly equal vectors, conditions and
+        # forbidden clauses rely on it.
+        return self.transformer.to_vector(self.transformer.to_value(quantized))
 
     def pdf_vector(self, vector: Array[f64]) -> Array[f64]:
         """Calculate the probability density function (pdf) of all elements in `vector`.
@@ -672,7 +676,7 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
 
                 top = np.linspace(qvector + stepsize, upper, steps - steps_to_take)
 
-            return np.concatenate((bottom, top))
+            return self._quantize(np.concatenate((bottom, top)))
 
         # Otherwise, we use a repeated sampling strategy where we slowly increase the
         # std of a normal, centered on `center`, slowly expanding `std` such that
-- 
2.43.0


From 1678334d213e948e1617ba2e946e0bcc6a505c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:59 +0000
Subject: [PATCH 24/27] fix: generate_grid does not repeat integers which round
 to the same value

---
 src/ConfigSpace/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 83c7366..68a3023 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -735,7 +735,8 @@ def generate_grid(
 
             if param.log:
                 grid_points = np.exp(grid_points)
-            grid_points = np.round(grid_points).astype(int)
+            # Rounding can give the same integer several times
+            grid_points = np.unique(np.round(grid_points).astype(int))
 
             # Avoiding rounding off issues
             if grid_points[0] < param.lower:
-- 
2.43.0


From c36593fcf752e4aaaa67c1e14bf891b669ea8496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:59 +0000
Subject: [PATCH 25/27] fix: equality of ordinal hyperparameters with sequences
 as values

Comparing the transformers with np.array_equal failed for ragged sequences of
tuples, so such a hyperparameter was not even equal to itself.
---
 src/ConfigSpace/hyperparameters/hp_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index e829217..6b83734 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -164,7 +164,7 @@ class TransformerSeq(Transformer[Any]):
             return False
 
         return (
-            np.array_equal(self.seq, value.seq)
+            list(self.seq) == list(value.seq)
             and self.lower_vectorized == value.lower_vectorized
         )
 
-- 
2.43.0


From 6dc75a1e22027749199b314b235752cbd1e3fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:48 +0000
Subject: [PATCH 26/27] fix: lists of choices of different types

Converting such a list to an array turned every choice into a string, so
to_vector raised and legal_value called legal choices illegal.
---
 src/ConfigSpace/hyperparameters/categorical.py | 4 ++--
 src/ConfigSpace/hyperparameters/ordinal.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index b95e759..11502aa 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -349,7 +349,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
@@ -374,7 +374,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
diff --git a/src/ConfigSpace/hyperparameters/ordinal.py b/src/ConfigSpace/hyperparameters/ordinal.py
index b060925..a422c5a 100644
--- a/src/ConfigSpace/hyperparameters/ordinal.py
+++ b/src/ConfigSpace/hyperparameters/ordinal.py
@@ -194,7 +194,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
@@ -219,7 +219,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
-- 
2.43.0


From dfca6edcb50860be04ee549a0bcfec4ca9ff3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:14 +0000
Subject: [PATCH 27/27] fix: equality of spaces whose forbidden clauses were
 added in other steps

The clauses kept per hyperparameter were in the order of the calls to add, so
such a space was not equal to itself after writing and reading it.
---
 src/ConfigSpace/_condition_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 82e9f20..e471aae 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -517,6 +517,9 @@ class DAG:
                 raise NotImplementedError(type(_f))
 
         # Sort forbiddens so it's always same order
+        for node in self.nodes.values():
+            node.forbiddens = []
+
         for forbidden in sorted(self.forbiddens, key=str):
             _sort_forbiddens(forbidden)
 
-- 
2.43.0

