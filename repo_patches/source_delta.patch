From e0076dd7a6e09e2e8263e12a7ea413dbd44ef351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 01/66] fix: compare objective values in the right direction
 when maximizing

---
 bayes_optim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 94a2098..a0c3541 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -176,4 +176,4 @@ class BaseOptimizer:
 
     def _compare(self, f1: float, f2: float) -> bool:
         """Test if objecctive value f1 is better than f2"""
-        return f1 < f2 if self.minimize else f2 > f1
+        return f1 < f2 if self.minimize else f1 > f2
-- 
2.43.0


From 0ac6b95717f37c05992852fb7141f2789dc253ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 02/66] fix: Node.remove dropped every node unless `invert` was
 set

---
 bayes_optim/search_space/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index 7e5d8aa..e671a7f 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -100,7 +100,7 @@ class Node:
         Node
             the updated root node
         """
-        op = lambda e, S: e not in S if invert else lambda e, S: e in S
+        op = lambda e, S: (e not in S) if invert else (e in S)
         if op(self.name, node_names):
             return None
         node = Node(self.name, deepcopy(self.data))
-- 
2.43.0


From 4a9e879752ed6c18702904123c4ed2dc94425bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 03/66] fix: the categorical mask overwrote the subset mask and
 missed subset variables

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a01926f..34db5ab 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -228,7 +228,7 @@ class SearchSpace:
             ]
             self.categorical_mask = np.bitwise_or(
                 self.bool_mask,
-                np.bitwise_or(self.discrete_mask, self.ordinal_mask, self.subset_mask),
+                np.bitwise_or(np.bitwise_or(self.discrete_mask, self.ordinal_mask), self.subset_mask),
             )
 
     def _set_levels(self):
-- 
2.43.0


From d6b520f0e2a2c8f4df5c81ce47e99e020064886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 04/66] fix: adding search spaces renamed the variables of the
 right operand

---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 34db5ab..946e13d 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -319,7 +319,7 @@ class SearchSpace:
         assert isinstance(space, SearchSpace)
         # NOTE: the random seed of `self` has the priority
         random_seed = self.random_seed if self.random_seed else space.random_seed
-        data = deepcopy(self.data) + space.data
+        data = deepcopy(self.data) + deepcopy(space.data)
         if hasattr(self, "structure"):
             structure = [t.deepcopy() for t in self.structure] + [
                 t.deepcopy() for t in space.structure
@@ -333,7 +333,7 @@ class SearchSpace:
 
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
-        self._set_data(self.data + space.data)
+        self._set_data(self.data + deepcopy(space.data))
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From a0f19c5612bde05132630656096427af613ed0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 05/66] fix: conditions were registered again when a
 conditional space was sliced

---
 bayes_optim/search_space/search_space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 946e13d..0d1c1af 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -180,7 +180,7 @@ class SearchSpace:
             for t in structure:
                 _structure.update(t.to_dict())
         elif isinstance(structure, dict):
-            _structure = structure
+            _structure = deepcopy(structure)
         # scan for all conditions defined in variables
         for var in self.data:
             if not hasattr(var, "conditions") or var.conditions is None:
@@ -189,9 +189,9 @@ class SearchSpace:
             key = var.conditions["vars"][0]
             if key not in var.conditions["vars"]:
                 raise ValueError(f"variable {var} not in {self}")
-            _structure.setdefault(key, []).append(
-                {"name": var.name, "condition": var.conditions["string"]}
-            )
+            info = {"name": var.name, "condition": var.conditions["string"]}
+            if info not in _structure.setdefault(key, []):
+                _structure[key].append(info)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
         self.structure = [t for t in self.structure if t]
 
-- 
2.43.0


From 673b723b2b4d5e1a6c439d4fa581b115d831454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 06/66] fix: in-place replication by one doubled the search
 space

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 0d1c1af..88b70b7 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -398,7 +398,7 @@ class SearchSpace:
             `self`
         """
         self._set_data(
-            self.data + [deepcopy(var) for _ in range(max(1, int(N - 1))) for var in self.data]
+            self.data + [deepcopy(var) for _ in range(max(1, int(N)) - 1) for var in self.data]
         )
         return self
 
-- 
2.43.0


From 46bd46a9ceb6240fcea4e0921f3708fdb31c5d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 07/66] fix: assigning a variable did not update the type of
 the search space

---
 bayes_optim/search_space/search_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 88b70b7..5d1587e 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -284,6 +284,7 @@ class SearchSpace:
                 else:
                     raise Exception(f"index type {type(i)} is not supported")
         self._set_data(self.data)
+        SearchSpace.__set_type(self)
 
     def __contains__(self, item: Union[str, Variable, SearchSpace, list, dict]) -> bool:
         """check if a name, a variable, a space, or a sample point in the the search space"""
-- 
2.43.0


From ebf2c92fc4c9be4b30a6bf9134d9f0019272c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 08/66] fix: updating a search space failed for more than one
 shared or new variable

---
 bayes_optim/search_space/search_space.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 5d1587e..adbbe39 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -483,19 +483,14 @@ class SearchSpace:
         space : SearchSpace
             the input space for the update
         """
-        _var_name = space.var_name
-        _update = np.array(list(set(_var_name) & set(self.var_name)))
-        _add = np.array(list(set(_var_name) - set(self.var_name)))
-
-        _index_update_to = np.nonzero(np.array(self._var_name) == _update)[0]
-        _index_update_from = np.nonzero(np.array(_var_name) == _update)[0]
-        for i, k in enumerate(_index_update_to):
-            j = _index_update_from[i]
-            self.data[k] = deepcopy(space.data[j])
-
-        _index_add = np.nonzero(np.array(_var_name) == _add)[0]
-        self.data += [space.data[i] for i in _index_add]
-        self._set_data(self.data)
+        _index = {name: i for i, name in enumerate(self.var_name)}
+        data = list(self.data)
+        for var in deepcopy(space.data):
+            if var.name in _index:
+                data[_index[var.name]] = var
+            else:
+                data.append(var)
+        self._set_data(data)
         return SearchSpace.__set_type(self)
 
     def sample(
-- 
2.43.0


From 75bdd73d20c7e296512886cd8da175231be82805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 09/66] fix: from_dict failed on default values and consumed
 the step of its input

---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index adbbe39..e5d1a34 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -641,7 +641,7 @@ class SearchSpace:
                 bounds = ()
 
             N = range(int(v["N"])) if "N" in v else range(1)
-            default_value = v["defualt"] if "default" in v else None
+            default_value = v["default"] if "default" in v else None
             try:
                 if v["type"] in ["r", "real"]:  # real-valued parameter
                     precision = v["precision"] if "precision" in v else None
@@ -658,7 +658,7 @@ class SearchSpace:
                     ]
                 elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
                     _vars = [
-                        Integer(bounds, name=k, default_value=default_value, step=v.pop("step", 1))
+                        Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
                         for _ in N
                     ]
                 elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
-- 
2.43.0


From a43a37d3fd8016336018ce90a50f0039b7f60f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:05 +0000
Subject: [PATCH 10/66] fix: renaming duplicated variables could produce a name
 already taken

---
 bayes_optim/search_space/search_space.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index e5d1a34..9c57c2a 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -164,12 +164,15 @@ class SearchSpace:
     def _check_data(self, data):
         assert all([isinstance(d, self._supported_types) for d in data])
         names = np.asarray([var.name for var in data])
+        used = set(names)
         for name, count in Counter(names).items():
             if count > 1:
                 idx = np.nonzero(names == name)[0]
-                _names = [name + str(i) for i in range(count)]
-                for i, k in enumerate(idx):
-                    data[k].name = _names[i]
+                # NOTE: never rename to a name that another variable already has
+                _names = (n for n in (name + str(i) for i in itertools.count()) if n not in used)
+                for k in idx:
+                    data[k].name = next(_names)
+                    used.add(data[k].name)
 
     def _set_structure(self, structure: Union[dict, List[Node]] = None):
         if structure is None:
-- 
2.43.0


From a86196c580b0f06fd87c1b15840775e329eb839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:23 +0000
Subject: [PATCH 11/66] fix: from_dict silently dropped or repeated variables
 it could not create

---
 bayes_optim/search_space/search_space.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 9c57c2a..3c2efdd 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -672,9 +672,11 @@ class SearchSpace:
                     _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
                 elif v["type"] in ["b", "bool"]:  # Boolean-valued
                     _vars = [Bool(name=k, default_value=default_value) for _ in N]
-                variables += _vars
-            except:
-                print(param)
+                else:
+                    raise ValueError(f"type {v['type']} is not supported")
+            except Exception as e:
+                raise ValueError(f"invalid definition of variable {k}: {v}") from e
+            variables += _vars
         return SearchSpace(variables)
 
     @classmethod
-- 
2.43.0


From ec4b97f611a86a0e10078e8bbc45d1106b768fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:23 +0000
Subject: [PATCH 12/66] fix: a search space could not be written to JSON and
 read back

---
 bayes_optim/search_space/search_space.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 3c2efdd..67ad969 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -590,9 +590,10 @@ class SearchSpace:
         out: dict = {}
         for _, var in enumerate(self.data):
             value = {
-                "range": var.bounds,
-                "type": type(var),
+                "range": var._bounds if isinstance(var, Subset) else var.bounds,
+                "type": "cat" if type(var) is Discrete else type(var).__name__.lower(),
                 "N": 1,
+                "default": var.default_value,
             }
             if isinstance(var, Real):
                 value["precision"] = var.precision
@@ -601,7 +602,7 @@ class SearchSpace:
                 value["step"] = var.step
 
             if hasattr(var, "conditions"):
-                value["conditions"] = var.conditions
+                value["conditions"] = var.conditions["string"] if var.conditions else None
                 # TODO: also export var._action?
             out[var.name] = value
         return out
@@ -676,6 +677,8 @@ class SearchSpace:
                     raise ValueError(f"type {v['type']} is not supported")
             except Exception as e:
                 raise ValueError(f"invalid definition of variable {k}: {v}") from e
+            for var in _vars:
+                var.set_conditions(v.get("conditions", None))
             variables += _vars
         return SearchSpace(variables)
 
-- 
2.43.0


From 37664d3536f0a02cfcb9a75534d412fd5da65962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 13/66] fix: solutions given as dictionaries were matched by
 position, not by name

---
 bayes_optim/base.py      | 4 +++-
 bayes_optim/extension.py | 2 +-
 bayes_optim/solution.py  | 8 ++++----
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ce22003..ba159f5 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -187,7 +187,9 @@ class BaseBO(BaseOptimizer):
             )
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
-            self._to_geno = lambda x, index=None: Solution.from_dict(x, index=index, n_obj=self.n_obj)
+            self._to_geno = lambda x, index=None: Solution.from_dict(
+                x, index=index, var_name=self.var_names, n_obj=self.n_obj
+            )
 
     def _set_internal_optimization(self, kwargs):
         if kwargs is None:
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index eb5189b..b055096 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -214,7 +214,7 @@ class ConditionalBO(ParallelBO):
         self._create_optimizer(**kwargs)
         self._ucb = np.zeros(self.n_subspace)
         self._to_pheno = lambda x: x.to_dict()
-        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, **kwargs)
+        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, var_name=self.var_names, **kwargs)
         self._bo_idx: List[int] = list()
 
     def _create_optimizer(self, **kwargs):
diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 774d2f6..d184d24 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -273,11 +273,11 @@ class Solution(np.ndarray):
         **kwargs,
     ) -> Solution:
         if isinstance(x, dict):
-            var_name = list(x.keys())
-            res = cls.__new__(cls, x=list(x.values()), var_name=var_name, index=index, **kwargs)
+            var_name = list(x.keys()) if var_name is None else list(var_name)
+            res = cls.__new__(cls, x=[x[k] for k in var_name], var_name=var_name, index=index, **kwargs)
         elif isinstance(x, list):
-            var_name = list(x[0].keys())
-            _x = [list(_.values()) for _ in x]
+            var_name = list(x[0].keys()) if var_name is None else list(var_name)
+            _x = [[_[k] for k in var_name] for _ in x]
             res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         return res
 
-- 
2.43.0


From 8db03ad21fdd58017e42415390b2ac42e7226fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 14/66] fix: concatenating solutions ignored a different order
 of the variables

---
 bayes_optim/solution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index d184d24..6450910 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -150,7 +150,10 @@ class Solution(np.ndarray):
         assert len(set(self.var_name).symmetric_difference(other.var_name)) == 0
 
         _ = [self.tolist()] if len(self.shape) == 1 else self.tolist()
-        __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
+        # match the columns of `other` by name
+        order = [other.var_name.tolist().index(name) for name in self.var_name]
+        other_x = np.asarray(other)[..., order]
+        __ = [other_x.tolist()] if len(other_x.shape) == 1 else other_x.tolist()
         return Solution(
             _ + __,
             self.fitness.tolist() + other.fitness.tolist(),
-- 
2.43.0


From d18b57cafef104569ccc5813841e656c7a3e6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 15/66] fix: the number of evaluations of a solution was
 counted twice

---
 bayes_optim/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ba159f5..7249e03 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -167,7 +167,6 @@ class BaseBO(BaseOptimizer):
                 X = self._to_geno(X)
 
             X.fitness = y
-            X.n_eval = 1
             assert all([isinstance(_, float) for _ in X[:, self.r_index].ravel()])
             assert all([isinstance(_, int) for _ in X[:, self.i_index].ravel()])
             assert all([isinstance(_, str) for _ in X[:, self.d_index].ravel()])
@@ -177,7 +176,7 @@ class BaseBO(BaseOptimizer):
     def _set_aux_vars(self):
         if self._eval_type == "list":
             self._to_pheno = lambda x: copy(x.tolist())
-            self._to_geno = lambda x, index=None, n_eval=1, fitness=None: Solution(
+            self._to_geno = lambda x, index=None, n_eval=0, fitness=None: Solution(
                 x,
                 var_name=self.var_names,
                 n_obj=self.n_obj,
-- 
2.43.0


From a93035e97727cbd99262a6e1365cba15bbacddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 16/66] fix: failed evaluations could not be removed in the
 multi-objective case

---
 bayes_optim/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 7249e03..2bd3741 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -413,6 +413,8 @@ class BaseBO(BaseOptimizer):
 
     def post_eval_check(self, X: Solution) -> Solution:
         _ = np.isnan(X.fitness) | np.isinf(X.fitness)
+        if len(_.shape) > 1:  # multi-objective: one failed objective invalidates the solution
+            _ = np.any(_, axis=1)
         if np.any(_):
             self.logger.warning(
                 f"{sum(_)} candidate solutions are removed "
-- 
2.43.0


From 0cd76609f0f13dd14d3951170865f374dbd867cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 17/66] fix: a failed save left the optimizer without its data
 and logger

---
 bayes_optim/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 2bd3741..d2b5897 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -514,11 +514,12 @@ class BaseBO(BaseOptimizer):
             logger = self.logger
             self.logger = dump_logger(self.logger)
 
-            dill.dump(self, f)
-
-            self.logger = logger
-            if hasattr(self, "data"):
-                self.data = dill.loads(self.data)
+            try:
+                dill.dump(self, f)
+            finally:
+                self.logger = logger
+                if hasattr(self, "data"):
+                    self.data = dill.loads(self.data)
             self.logger.info(f"save to file {filename}...")
 
     @classmethod
-- 
2.43.0


From 9eaee2267c0c0fb161b619aa89ac8eed06ac283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 18/66] fix: optimizers shared and modified the default
 acquisition parameters

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index d2b5897..53f5148 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -109,7 +109,7 @@ class BaseBO(BaseOptimizer):
         self.DoE_size = DoE_size
 
         self.acquisition_fun = acquisition_fun
-        self._acquisition_par = acquisition_par if acquisition_par else {}
+        self._acquisition_par = copy(acquisition_par) if acquisition_par else {}
         # the callback functions executed after every call of `arg_max_acquisition`
         self._acquisition_callbacks = []
         self.model = model
-- 
2.43.0


From 744f7909c82409dd83f4dcb7dbf3958e02c132f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 19/66] fix: SelfAdaptiveBO ranked one candidate instead of all
 acquisition values

---
 bayes_optim/bayes_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index b760b5d..0bbc9b9 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -169,7 +169,7 @@ class SelfAdaptiveBO(ParallelBO):
             __ = [list(self._argmax_restart(_, logger=self.logger)) for _ in criteria]
 
         # NOTE: this adaptation is different from what I did in the LeGO paper..
-        idx = np.argsort(__[1])[::-1][:N]
+        idx = np.argsort([fopt for _, fopt in __])[::-1][:N]
         self._acquisition_par["t"] = np.mean([_t_list[i] for i in idx])
         return tuple(zip(*__))
 
-- 
2.43.0


From 69bc0179e24f2a66b2f98c3fbeb455b4f4b8905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 20/66] fix: ConditionalBO dropped variables whose value is
 zero or false

---
 bayes_optim/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index b055096..31215ac 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -288,7 +288,7 @@ class ConditionalBO(ParallelBO):
         assert len(self._bo_idx) == len(X)
         # call `tell` method of BOs in each subspace
         for i, k in enumerate(self._bo_idx):
-            x = {k: v for k, v in X[i].items() if v}
+            x = {k: v for k, v in X[i].items() if v is not None}
             for key, _ in self._fixed_vars[k].items():
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
-- 
2.43.0


From f5d27cde3a1a6e13686818d05024102e53ec6b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 21/66] fix: functions with fixed arguments could not be
 evaluated on several points

---
 bayes_optim/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 5494afc..8e5f364 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -186,7 +186,7 @@ def partial_argument(
         if not isinstance(X, np.ndarray):
             X = np.array(X, dtype=object)
 
-        N = 1 if len(X.shape) == 1 else X.shape[1]
+        N = 1 if len(X.shape) == 1 else X.shape[0]
         X_ = np.empty((N, len(masks)), dtype=object)
         X_[:, ~masks] = X
         # this is needed if `values` contains tuples
-- 
2.43.0


From 498dac5ace88b7106644173c4f7ca8e968a20442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 22/66] fix: the probability of improvement could not be
 created

---
 bayes_optim/acquisition/acquisition_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 9a2ae06..59d27ef 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -202,7 +202,7 @@ class EpsilonPI(ImprovementBased):
 
     @epsilon.setter
     def epsilon(self, eps):
-        assert eps > 0
+        assert eps >= 0
         self._epsilon = eps
 
     def __call__(self, X, return_dx=False):
-- 
2.43.0


From e3bb87a94ed0c79d8a5469450a90fc27507be7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 23/66] fix: the (1+1)-CMA-ES restarted in every iteration
 after its first restart

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c8295f8..c540442 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -275,6 +275,7 @@ class OnePlusOne_CMA(object):
             self._delta_f = self.ftol * 200
             self.stop_dict = {}
             self.n_restart -= 1
+            self._restart = False
 
     def ask(self) -> np.ndarray:
         """The mutation operator
-- 
2.43.0


From 6e6c21fc4e2cd222400efa9f8e110952be79264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 24/66] fix: fmin reported the wrong initial design

---
 bayes_optim/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 0115a59..93887ca 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -191,7 +191,7 @@ def fmin(
     N, n = opt.DoE_size, opt.n_point
     _data, data = opt.data[:N, :], opt.data[N:, :]
 
-    data_per_iteration = [np.asarray(data[:N, :])]
+    data_per_iteration = [np.asarray(_data)]
     data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(opt.iter_count - 1)]
 
     print(
-- 
2.43.0


From 31141fef6f086a4f5fcbd76a998d4296d731b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:17 +0000
Subject: [PATCH 25/66] fix: non_dominated_set_2d changed its input and kept
 dominated points on ties

---
 bayes_optim/utils/multi_objective/pareto.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/utils/multi_objective/pareto.py b/bayes_optim/utils/multi_objective/pareto.py
index b44e212..dae78ae 100644
--- a/bayes_optim/utils/multi_objective/pareto.py
+++ b/bayes_optim/utils/multi_objective/pareto.py
@@ -21,9 +21,10 @@ def non_dominated_set_2d(y, minimize=True):
 
     minimize = np.asarray(minimize).ravel()
     assert len(minimize) == 1 or minimize.shape == (N,)
-    y *= (np.asarray([-1] * N) ** minimize).reshape(-1, 1)
+    y = y * (np.asarray([-1] * N) ** minimize).reshape(-1, 1)
 
-    _ = np.argsort(y[:, 0])[::-1]
+    # ties in the first objective are resolved by the second one
+    _ = np.lexsort((y[:, 1], y[:, 0]))[::-1]
     y2 = y[_, 1]
     ND = []
     for i in range(N):
-- 
2.43.0


From ce55c98debc88b4c9ed1e204acdb56c06508337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:30 +0000
Subject: [PATCH 26/66] fix: constrained samples and acquisition optima ignored
 the numerical precision

---
 bayes_optim/acquisition/optim/__init__.py            |  2 +-
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py |  1 +
 bayes_optim/search_space/samplers.py                 | 12 +++++++-----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index d55d253..329f67b 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -84,7 +84,7 @@ def argmax_restart(
                 bounds=bounds,
                 maxfun=eval_budget,
             )
-            xopt_ = xopt_.flatten().tolist()
+            xopt_ = search_space.round(xopt_).ravel().tolist()
             if not isinstance(fopt_, float):
                 fopt_ = float(fopt_)
             fopt_ = -fopt_
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c540442..97675b2 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -214,6 +214,7 @@ class OnePlusOne_CMA(object):
             # sample `x` u.a.r. in `[lb, ub]`
             assert all(~np.isinf(self.lb)) & all(~np.isinf(self.ub))
             x = (self.ub - self.lb) * np.random.rand(self.dim) + self.lb
+            x = self.search_space.round(x).ravel()
 
         self._x = x
         y = self.evaluate(x)
diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index b62235e..1628ee2 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -128,11 +128,13 @@ class SCMC:
     def _rproposal_real(self, X: np.ndarray, t: int):
         X_ = X[:, self.id_r].astype(float)
         q = np.std(X_, axis=0) / (t + 1)
-        X[:, self.id_r] = np.clip(
-            X_ + q * np.random.randn(*X_.shape),
-            self.bounds_r[:, 0],
-            self.bounds_r[:, 1],
-        )
+        X_ = X_ + q * np.random.randn(*X_.shape)
+        # rounding if a coarser numerical precision is provided
+        for k, i in enumerate(self.id_r):
+            precision = self.sample_space.data[i].precision
+            if precision is not None:
+                X_[:, k] = np.round(X_[:, k], precision)
+        X[:, self.id_r] = np.clip(X_, self.bounds_r[:, 0], self.bounds_r[:, 1])
 
     def _rproposal_integer(self, X: np.ndarray, t: int):
         X_ = X[:, self.id_i].astype(int)
-- 
2.43.0


From 91752625c84f32b772bcc522ea4515dc74d5016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:30 +0000
Subject: [PATCH 27/66] fix: constrained samples and acquisition optima ignored
 the step size of integers

---
 bayes_optim/acquisition/optim/mies.py | 10 +++++++---
 bayes_optim/search_space/samplers.py  | 11 +++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index a8a5524..cbc4ab6 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -80,6 +80,7 @@ class MIES:
         # unpack interval bounds
         self.bounds_r = np.asarray([self._space.bounds[_] for _ in self.id_r])
         self.bounds_i = np.asarray([self._space.bounds[_] for _ in self.id_i])
+        self.step_i = np.asarray([self._space.data[_].step for _ in self.id_i])
         # NOTE: bounds might be ragged
         self.bounds_d = [self._space.bounds[_] for _ in self.id_d]
         self._check_bounds(self.bounds_r)
@@ -254,11 +255,14 @@ class MIES:
         eta[eta > 1] = 1
 
         p = 1 - (eta / self.N_i) / (1 + np.sqrt(1 + (eta / self.N_i) ** 2.0))
-        x_ = x + geometric(p) - geometric(p)
+        x_ = x + self.step_i * (geometric(p) - geometric(p))
 
         # Interval Bounds Treatment
-        x_ = np.asarray(handle_box_constraint(x_, self.bounds_i[:, 0], self.bounds_i[:, 1]), dtype="int")
-        individual[self.id_i] = x_
+        lb, ub = self.bounds_i[:, 0], self.bounds_i[:, 1]
+        x_ = handle_box_constraint(x_, lb, ub)
+        # take the closest value on the grid of the given step size
+        k = np.clip(np.rint((x_ - lb) / self.step_i), 0, np.floor((ub - lb) / self.step_i))
+        individual[self.id_i] = np.asarray(lb + k * self.step_i, dtype="int")
         individual[self._id_eta] = eta
 
     def _mutate_d(self, individual):
diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index 1628ee2..03fe86a 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -92,7 +92,14 @@ class SCMC:
             self.bounds_i = np.asarray([(-np.inf, np.inf) for _ in self.id_i])
         else:
             self.bounds_r = np.asarray([self.sample_space.bounds[_] for _ in self.id_r])
-            self.bounds_i = np.asarray([self.sample_space.bounds[_] for _ in self.id_i])
+            # NOTE: the upper bound might not be a multiple of the step size away from the lower one
+            self.bounds_i = np.asarray(
+                [
+                    (var.bounds[0], var.bounds[0] + (var._size - 1) * var.step)
+                    for var in [self.sample_space.data[_] for _ in self.id_i]
+                ]
+            )
+        self.step_i = np.asarray([self.sample_space.data[_].step for _ in self.id_i])
         self.bounds_d = [self.sample_space.bounds[_] for _ in self.id_d]
 
     def _log_posterior(self, x: np.ndarray, nu: float) -> float:
@@ -140,7 +147,7 @@ class SCMC:
         X_ = X[:, self.id_i].astype(int)
         p = norm.cdf(np.std(X_, axis=0) / (t + 1))
         X[:, self.id_i] = np.clip(
-            X_ + np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape),
+            X_ + self.step_i * (np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape)),
             self.bounds_i[:, 0],
             self.bounds_i[:, 1],
         )
-- 
2.43.0


From 4ce612e6436892da3ff0d795a48884c183052468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:25 +0000
Subject: [PATCH 28/66] fix: constrained sampling changed the type of mixed
 levels and failed on subsets

---
 bayes_optim/search_space/samplers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index 03fe86a..f2d894b 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -156,9 +156,11 @@ class SCMC:
         N = len(X)
         prob = max(0.5 * np.exp(-1 * t), 1 / self.N_d)
         for i in self.id_d:
-            levels = np.array(self.sample_space.bounds[i])
-            idx = np.random.rand(N) < prob
-            X[idx, i] = levels[np.random.randint(0, len(levels), sum(idx))]
+            levels = self.sample_space.bounds[i]
+            idx = np.nonzero(np.random.rand(N) < prob)[0]
+            # NOTE: levels can be of different types or tuples, do not convert them to an array
+            for k, j in zip(idx, np.random.randint(0, len(levels), len(idx))):
+                X[k, i] = levels[j]
 
     def _ess(self, nu: float, nu_ref: float, X: np.ndarray) -> float:
         """effective sample size"""
-- 
2.43.0


From 842a318e908826009424d54fef47ba84887cad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:25 +0000
Subject: [PATCH 29/66] fix: sampling failed under an equality constraint that
 returns a scalar

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 67ad969..4e4c3fc 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -536,7 +536,7 @@ class SearchSpace:
             # NOTE: equality constraints are converted to an epsilon-tude around the
             # corresponding manifold
             idx_h = (
-                list(map(lambda x: all(np.isclose(np.abs(h(x)), 0, atol=tol)), S))
+                list(map(lambda x: np.all(np.isclose(np.abs(h(x)), 0, atol=tol)), S))
                 if h
                 else [True] * n
             )
-- 
2.43.0


From 3453a5370383f9b330e6282eacbb3551a2a867eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:11 +0000
Subject: [PATCH 30/66] fix: the last solution or variable, selected by -1,
 lost its attributes or values

---
 bayes_optim/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 6450910..ae3c9cf 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -213,7 +213,7 @@ class Solution(np.ndarray):
             _ = index[0]
             if len(index) == 2:
                 if isinstance(index[1], int) and not isinstance(index[0], int):
-                    __ = slice(index[1], index[1] + 1)
+                    __ = slice(index[1], index[1] + 1 or None)
                     index = (_, __)
                 else:
                     __ = index[1]
@@ -225,7 +225,7 @@ class Solution(np.ndarray):
             # NOTE: `slice` is needed here to make sure an array is always returned
             # after slicing attributes `fitness`, `n_eval, `index`
             # Otherwise setting the attribute of a slice is by value...
-            _ = slice(_, _ + 1) if isinstance(_, (int, np.int_)) else _
+            _ = slice(_, _ + 1 or None) if isinstance(_, (int, np.int_)) else _
             if len(self.shape) == 1:  # `self` is a 1-d array
                 subarr.var_name = subarr.var_name[_]
             else:
-- 
2.43.0


From 646f0dab700bcd301bbaf09b2f22091a4fd58c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:11 +0000
Subject: [PATCH 31/66] fix: single multi-objective solutions could not be
 concatenated or repeated

---
 bayes_optim/solution.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index ae3c9cf..d827521 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -138,6 +138,12 @@ class Solution(np.ndarray):
         obj.verbose = verbose
         return obj
 
+    def _fitness_rows(self) -> List:
+        # NOTE: the objective values of a single solution (1-d array) are not nested
+        if self.n_obj > 1 and len(self.fitness.shape) == 1:
+            return [self.fitness.tolist()]
+        return self.fitness.tolist()
+
     def __iadd__(self, other: Solution) -> Solution:
         return self.__add__(other)
 
@@ -156,7 +162,7 @@ class Solution(np.ndarray):
         __ = [other_x.tolist()] if len(other_x.shape) == 1 else other_x.tolist()
         return Solution(
             _ + __,
-            self.fitness.tolist() + other.fitness.tolist(),
+            self._fitness_rows() + other._fitness_rows(),
             self.n_eval.tolist() + other.n_eval.tolist(),
             var_name=self.var_name,
             fitness_name=self.fitness_name,
@@ -172,7 +178,7 @@ class Solution(np.ndarray):
             raise Exception("Replication is not supported for 2D")
         return Solution(
             [self.tolist()] * N,
-            self.fitness.tolist() * N,
+            self._fitness_rows() * N,
             self.n_eval.tolist() * N,
             var_name=self.var_name,
             fitness_name=self.fitness_name,
-- 
2.43.0


From 6cdb0c1bf478852bbddbc52b075acd303a2c0b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:15 +0000
Subject: [PATCH 32/66] fix: warm data given as Solution or with dictionary
 evaluation could not be used

---
 bayes_optim/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 53f5148..0f52969 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -162,7 +162,7 @@ class BaseBO(BaseOptimizer):
             assert len(X) == len(y)
 
             if isinstance(X, Solution):
-                assert X.var_name == self.var_names
+                assert list(X.var_name) == list(self.var_names)
             else:
                 X = self._to_geno(X)
 
@@ -171,7 +171,7 @@ class BaseBO(BaseOptimizer):
             assert all([isinstance(_, int) for _ in X[:, self.i_index].ravel()])
             assert all([isinstance(_, str) for _ in X[:, self.d_index].ravel()])
             self._warm_data = X
-            self.tell(X, y, warm_start=True)
+            self.tell(self._to_pheno(X), y, warm_start=True)
 
     def _set_aux_vars(self):
         if self._eval_type == "list":
-- 
2.43.0


From 84a9d09948285aa648d8782872534677d4e4e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:15 +0000
Subject: [PATCH 33/66] fix: fmin grouped the points by the initial design size
 even when started from given points

---
 bayes_optim/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 93887ca..50214f9 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -188,11 +188,12 @@ def fmin(
     )
     opt.run()
 
-    N, n = opt.DoE_size, opt.n_point
+    N, n = len(warm_data[0]) if warm_data else opt.DoE_size, opt.n_point
+    n_iter = opt.iter_count if warm_data else opt.iter_count - 1
     _data, data = opt.data[:N, :], opt.data[N:, :]
 
     data_per_iteration = [np.asarray(_data)]
-    data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(opt.iter_count - 1)]
+    data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(n_iter)]
 
     print(
         "Optimization terminated successfully.\n"
-- 
2.43.0


From 97e5a1c35be174d5a093e3bc0509e2c340e807be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:16 +0000
Subject: [PATCH 34/66] fix: the (1+1)-CMA-ES reset the global random generator
 to a fixed seed in every restart

---
 bayes_optim/acquisition/optim/__init__.py            | 2 --
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 329f67b..940b451 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -1,5 +1,4 @@
 import logging
-import time
 from typing import Callable, List, Tuple
 
 import numpy as np
@@ -104,7 +103,6 @@ def argmax_restart(
                 n_restart=0,
                 minimize=False,
                 verbose=False,
-                seed=time.time(),
             )
             xopt_, fopt_, stop_dict = opt.run()
             stop_dict["funcalls"] = stop_dict["FEs"] if "FEs" in stop_dict else opt.eval_count
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 97675b2..a7c64a3 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -35,7 +35,7 @@ class OnePlusOne_CMA(object):
         ftol: float = 1e-4,
         verbose: bool = False,
         log_file: str = None,
-        random_seed: int = 42,
+        random_seed: int = None,
         **kwargs,
     ):
         """Hereafter, we use the following customized
-- 
2.43.0


From a26bc78063d604f5936daae7a9033925ef9a2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:16 +0000
Subject: [PATCH 35/66] fix: NoisyBO could not create its initial design

---
 bayes_optim/bayes_opt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 0bbc9b9..7e5095d 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -178,9 +178,7 @@ class NoisyBO(ParallelBO):
     """Bayesian Optimization for Noisy Scenarios"""
 
     def pre_eval_check(self, X: List):
-        if not isinstance(X, Solution):
-            X = Solution(X, var_name=self.var_names)
-        return X
+        return X.tolist() if isinstance(X, np.ndarray) else X
 
     def _create_acquisition(self, fun: Callable = None, par: Dict = None, **kwargv):
         par = {} if par is None else par
-- 
2.43.0


From 1d2b10025aa9b73092d36f3c601db633859e31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:34 +0000
Subject: [PATCH 36/66] fix: ConditionalBO did not count failed evaluations, so
 its budget was never used up

---
 bayes_optim/extension.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 31215ac..dd7eb48 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -293,9 +293,10 @@ class ConditionalBO(ParallelBO):
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
 
-        X = self.post_eval_check(self._to_geno(X, fitness=func_vals))
+        if not warm_start:
+            self.eval_count += len(X)
+        X = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1))
         self.data = self.data + X if hasattr(self, "data") else X
-        self.eval_count += len(X)
 
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
-- 
2.43.0


From 446258c70af02110701a0cab44bcea18d9974a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:34 +0000
Subject: [PATCH 37/66] fix: PCABO did not record the history of its best
 values

---
 bayes_optim/extension.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index dd7eb48..2964075 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -173,6 +173,7 @@ class PCABO(BO):
         self._search_space = RealSpace(bounds)
         # update the surrogate model
         self.update_model(X, self.data.fitness)
+        self.hist_f.append(self.xopt.fitness)
         self.logger.info(f"xopt/fopt:\n{self.xopt}\n")
 
     def update_model(self, X: np.ndarray, y: np.ndarray):
-- 
2.43.0


From 2a115b5d45fec351fd1195a469352f0af1240b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:01 +0000
Subject: [PATCH 38/66] fix: UCB preferred the worst predicted points in both
 directions

---
 bayes_optim/acquisition/acquisition_fun.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 59d27ef..97b4d5a 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -110,7 +110,8 @@ class UCB(AcquisitionFunction):
 
         \alpha(x) = m(x) + \alpha * \sigma(x),
 
-        where m(x) the predicted value and \sigma(x) is the uncertainty of the prediction
+        where m(x) the predicted value and \sigma(x) is the uncertainty of the prediction.
+        For minimization, m(x) is negated (lower confidence bound).
         """
         super().__init__(**kwargs)
         self.alpha = alpha
@@ -130,7 +131,8 @@ class UCB(AcquisitionFunction):
         y_hat, sd = self._predict(X)
 
         try:
-            f_value = y_hat + self.alpha * sd
+            # NOTE: `y_hat` is always subject to minimization
+            f_value = -1 * y_hat + self.alpha * sd
             if n_sample == 1:
                 f_value = sum(f_value)
         except Exception:  # in case of numerical errors
@@ -140,7 +142,7 @@ class UCB(AcquisitionFunction):
             y_dx, sd2_dx = self._gradient(X)
             sd_dx = sd2_dx / (2.0 * sd)
             try:
-                f_dx = y_dx + self.alpha * sd_dx
+                f_dx = -1 * y_dx + self.alpha * sd_dx
             except Exception:
                 f_dx = np.zeros((len(X[0]), 1))
             return f_value, f_dx
-- 
2.43.0


From 671b42c2ee493848a1b8f629ba1f5d8e5ccaaf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:01 +0000
Subject: [PATCH 39/66] fix: the probability of improvement was not a number at
 points without uncertainty

---
 bayes_optim/acquisition/acquisition_fun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 97b4d5a..acc784a 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -211,6 +211,9 @@ class EpsilonPI(ImprovementBased):
         X = self.check_X(X)
         y_hat, sd = self._predict(X)
 
+        if np.isclose(sd, 0):
+            return (0.0, np.zeros((len(X[0]), 1))) if return_dx else 0.0
+
         coef = 1 - self._epsilon if y_hat > 0 else (1 + self._epsilon)
         try:
             xcr_ = self._plugin - coef * y_hat
-- 
2.43.0


From 34846e38ac118723edf6ca806b55e34f5c9bf517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:19 +0000
Subject: [PATCH 40/66] fix: SelfAdaptiveBO failed when an acquisition
 optimization found no feasible point

---
 bayes_optim/bayes_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 7e5095d..66cf7c4 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -169,7 +169,8 @@ class SelfAdaptiveBO(ParallelBO):
             __ = [list(self._argmax_restart(_, logger=self.logger)) for _ in criteria]
 
         # NOTE: this adaptation is different from what I did in the LeGO paper..
-        idx = np.argsort([fopt for _, fopt in __])[::-1][:N]
+        # NOTE: no candidate is returned if the acquisition optimization found no feasible point
+        idx = np.argsort([fopt if len(xopt) != 0 else -np.inf for xopt, fopt in __])[::-1][:N]
         self._acquisition_par["t"] = np.mean([_t_list[i] for i in idx])
         return tuple(zip(*__))
 
-- 
2.43.0


From aef4abec209b2f8efd78c49ff6bda133f4cf9730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:30 +0000
Subject: [PATCH 41/66] fix: MIES failed when the objective returns a scalar
 for some points and an array for others

---
 bayes_optim/acquisition/optim/mies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index cbc4ab6..df2a16b 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -202,7 +202,8 @@ class MIES:
         if len(pop.shape) == 1:  # one solution
             X = [X]
 
-        pop.fitness = np.array(list(map(self.obj_func, X))).ravel()
+        # NOTE: the objective function might return scalars for some points and arrays for others
+        pop.fitness = np.concatenate([np.ravel(self.obj_func(x)) for x in X])
         self.eval_count += pop.N
         _penalized_fitness = (
             self._penalty_func(X, self.iter_count + 1, self.eq_func, self.ineq_func, minimize=self.minimize)
-- 
2.43.0


From 4aab0930a25a30049461a5b7863125b98898228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:51 +0000
Subject: [PATCH 42/66] fix: MOBO compared objective values in single precision
 and reported dominated solutions

---
 bayes_optim/mobo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index 2588af4..d2c9981 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -5,7 +5,7 @@ import numpy as np
 from joblib import Parallel, delayed
 from sklearn.metrics import mean_squared_error, r2_score
 from sklearn.preprocessing import MinMaxScaler
-from torch import Tensor
+from torch import Tensor, from_numpy
 
 from .acquisition.optim import argmax_restart
 from .bayes_opt import BO
@@ -53,7 +53,9 @@ class BaseMOBO(BO):
         """get the non-dominated subset of solutions"""
         if self.y is None:
             return None
-        idx = is_non_dominated(Tensor(self.y)).detach().cpu().numpy()
+        # NOTE: compare the objective values themselves, without loss of precision
+        y = self.data.fitness * (-1) ** self.minimize
+        idx = is_non_dominated(from_numpy(y)).detach().cpu().numpy()
         return self.data[idx, :]
 
     @property
-- 
2.43.0


From 178d76eb52efc22eb0d670254c8260e178d54285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:36 +0000
Subject: [PATCH 43/66] fix: EHVI mixed up points and cells when evaluated at
 more than one point

---
 bayes_optim/multi_objective/analytic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/multi_objective/analytic.py b/bayes_optim/multi_objective/analytic.py
index 6847257..adb7d40 100644
--- a/bayes_optim/multi_objective/analytic.py
+++ b/bayes_optim/multi_objective/analytic.py
@@ -228,8 +228,9 @@ class EHVI(MultiObjectiveAnalyticAcquisitionFunction):
             X = X.reshape(1, -1)
         # get the mean and variance
         mean, MSE = self.model.predict(X, eval_MSE=True)
-        mean = torch.Tensor(mean).unsqueeze(0)
-        variance = torch.Tensor(MSE).unsqueeze(0)
+        # NOTE: `n x 1 x m`, such that each point is combined with all cells
+        mean = torch.Tensor(mean).unsqueeze(-2)
+        variance = torch.Tensor(MSE).unsqueeze(-2)
         mu, sigma = mean, variance.clamp_min(1e-9).sqrt()
         # clamp here, since upper_bounds will contain `inf`s, which
         # are not differentiable
-- 
2.43.0


From c9dfc9c2d50aa409cfd9bb23bcf85862bf9a04cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 44/66] fix: the hypervolume dropped points that agree in all
 but the last objectives

---
 bayes_optim/utils/multi_objective/hypervolume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/utils/multi_objective/hypervolume.py b/bayes_optim/utils/multi_objective/hypervolume.py
index bdf0a8f..c9c681f 100644
--- a/bayes_optim/utils/multi_objective/hypervolume.py
+++ b/bayes_optim/utils/multi_objective/hypervolume.py
@@ -126,7 +126,7 @@ class Hypervolume:
             p = sentinel
             q = p.prev[i]
             while q.data is not None:
-                if q.ignore < i:
+                if q.ignore <= i:
                     q.ignore = 0
                 q = q.prev[i]
             q = p.prev[i]
-- 
2.43.0


From b6814087a11130efae942b0b240363061c042373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:48 +0000
Subject: [PATCH 45/66] fix: a save that failed on the logger left the
 optimizer without its data

---
 bayes_optim/base.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 0f52969..cb28e40 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -505,21 +505,19 @@ class BaseBO(BaseOptimizer):
         if dirname != "":
             os.makedirs(dirname, exist_ok=True)
 
+        data, logger = getattr(self, "data", None), self.logger
         with open(filename, "wb") as f:
-            # NOTE: we need to dump `self.data` first. Otherwise, some
-            # attributes of it will be lost
-            if hasattr(self, "data"):
-                self.data = dill.dumps(self.data)
-
-            logger = self.logger
-            self.logger = dump_logger(self.logger)
-
             try:
+                # NOTE: we need to dump `self.data` first. Otherwise, some
+                # attributes of it will be lost
+                if data is not None:
+                    self.data = dill.dumps(data)
+                self.logger = dump_logger(logger)
                 dill.dump(self, f)
             finally:
                 self.logger = logger
-                if hasattr(self, "data"):
-                    self.data = dill.loads(self.data)
+                if data is not None:
+                    self.data = data
             self.logger.info(f"save to file {filename}...")
 
     @classmethod
-- 
2.43.0


From d5d8c2dc830304df55822e9ec2c593976ecd298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:26 +0000
Subject: [PATCH 46/66] fix: SelfAdaptiveBO's random t could explode and
 underflow to zero, which fails in MGFI

---
 bayes_optim/bayes_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 66cf7c4..08642e1 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -155,7 +155,8 @@ class SelfAdaptiveBO(ParallelBO):
         N = int(n_point / 2)
 
         for _ in range(n_point):
-            _t = np.exp(self._acquisition_par["t"] * np.random.randn())
+            # NOTE: `t` has to be positive and huge values make it explode/vanish in the next iterations
+            _t = np.clip(np.exp(self._acquisition_par["t"] * np.random.randn()), 1e-10, 22.36)
             _t_list.append(_t)
             _acquisition_par = copy(self._acquisition_par)
             _acquisition_par.update({"t": _t})
-- 
2.43.0


From 355634e1c8d2ab3b43bca96715364ba81d2c1bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 47/66] fix: MIES could not evaluate points as dictionaries

---
 bayes_optim/acquisition/optim/mies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index df2a16b..ebb5293 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -57,7 +57,7 @@ class MIES:
         if self._eval_type == "list":
             self._to_pheno = lambda x: x
         elif self._eval_type == "dict":
-            self._to_pheno = lambda x: x.to_dict(space=self._space)
+            self._to_pheno = lambda x: x.to_dict()
 
         # index of each type of variables in the dataframe
         self.id_r = self._space.real_id  # index of continuous variable
-- 
2.43.0


From e6eed2e2a66da5020b7cb85cb4a11dd6012cee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 48/66] fix: argmax_restart without a logger failed when it
 falls back to MIES

---
 bayes_optim/acquisition/optim/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 940b451..c336261 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -68,7 +68,8 @@ def argmax_restart(
     wait_count = 0
     if not isinstance(search_space, RealSpace) and optimizer == "BFGS":
         optimizer = "MIES"
-        logger.warning("L-BFGS-B can only be applied on continuous search space")
+        if logger is not None:
+            logger.warning("L-BFGS-B can only be applied on continuous search space")
 
     for iteration in range(n_restart):
         x0 = search_space.sample(N=1, method="uniform")[0]
-- 
2.43.0


From 1506c16af1d1d0c51a1594bfc2aa0d65516f52fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 49/66] fix: (1+1)-Cholesky-CMA-ES proposed NaN after a step of
 length zero

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index a7c64a3..a85d613 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -463,8 +463,11 @@ class OnePlusOne_Cholesky_CMA(OnePlusOne_CMA):
         w_ = w.dot(self._A_inv)
         L = np.sum(w**2)
 
-        self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
+        # NOTE: the evolution path is zero if no step has been made yet, e.g., by rounding back to the parent
+        if L > 0:
+            self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
         self._A *= np.sqrt(ca)
 
-        self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
+        if L > 0:
+            self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
         self._A_inv *= 1 / np.sqrt(ca)
-- 
2.43.0


From b63385eb376093b281bf75175110565e900b0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 50/66] fix: (1+1)-CMA-ES returned an infeasible or worse point
 although it had evaluated a better feasible one

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index a85d613..01a3536 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -317,6 +317,7 @@ class OnePlusOne_CMA(object):
             self.fopt = y
             self.fopt_penalized = y_penalized
             self.xopt = x
+            self._xopt_feasible = penalty == 0
             return
 
         success = self._better(y_penalized, self.fopt_penalized)
@@ -332,9 +333,11 @@ class OnePlusOne_CMA(object):
             self._x = copy(x)
             self._update_covariance(z)
 
-        if success and penalty == 0:
-            self.xopt = copy(self._x)
+        # NOTE: `xopt` is the best feasible point, not necessarily the current parent, which might be infeasible
+        if penalty == 0 and (not self._xopt_feasible or self._better(y, self.fopt)):
+            self.xopt = copy(x)
             self.fopt = y
+            self._xopt_feasible = True
 
         self._handle_exception()
         self.iter_count += 1
-- 
2.43.0


From cb46379a2129db35f14c78a1aa5b85d9bafb48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 51/66] fix: MIES could not be started from a given point or
 given step sizes

---
 bayes_optim/acquisition/optim/mies.py | 37 +++++++++++++--------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index ebb5293..b642119 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -88,14 +88,17 @@ class MIES:
 
         # step default step-sizes/mutation strength
         par_name = []
-        if sigma0 is None and self.N_r:
-            sigma0 = 0.05 * (self.bounds_r[:, 1] - self.bounds_r[:, 0])
+        if self.N_r:
+            if sigma0 is None:
+                sigma0 = 0.05 * (self.bounds_r[:, 1] - self.bounds_r[:, 0])
             par_name += ["sigma" + str(_) for _ in range(self.N_r)]
-        if eta0 is None and self.N_i:
-            eta0 = 0.05 * (self.bounds_i[:, 1] - self.bounds_i[:, 0])
+        if self.N_i:
+            if eta0 is None:
+                eta0 = 0.05 * (self.bounds_i[:, 1] - self.bounds_i[:, 0])
             par_name += ["eta" + str(_) for _ in range(self.N_i)]
-        if P0 is None and self.N_d:
-            P0 = 1.0 / self.N_d
+        if self.N_d:
+            if P0 is None:
+                P0 = 1.0 / self.N_d
             par_name += ["P" + str(_) for _ in range(self.N_p)]
 
         # column indices: used for slicing
@@ -107,23 +110,19 @@ class MIES:
 
         # initialize the populations
         if x0 is not None:  # given x0
-            par = []
+            x = np.array(x0, dtype="object").tolist()
             if self.N_r:
-                par += [sigma0]
+                x += (np.zeros(self.N_r) + sigma0).tolist()
             if self.N_i:
-                par += [eta0]
+                x += (np.zeros(self.N_i) + eta0).tolist()
             if self.N_p:
-                par += [P0] * self.N_p
-
-            self.pop = Solution(
-                np.tile(np.r_[x0, par], (self.mu_, 1)),
-                var_name=self.var_names + par_name,
-                verbose=self.verbose,
-            )
-            fitness0 = self.evaluate(self.pop[0])
+                x += [P0] * self.N_p
+
+            self.pop = Solution([x] * self.mu_, var_name=self.var_names + par_name, verbose=self.verbose)
+            fitness0 = self.evaluate(self.pop[:1])
             self.fitness = np.repeat(fitness0, self.mu_)
-            self.xopt = x0
-            self.fopt = sum(fitness0)
+            self.xopt = self.pop[0, self._id_var]
+            self.fopt = fitness0[0]
         else:  # uniform sampling
             x = np.asarray(self._space.sample(self.mu_), dtype="object")
 
-- 
2.43.0


From ed1b460af2326f5054b24f3dc4606b4687805c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:17 +0000
Subject: [PATCH 52/66] fix: argmax_restart with L-BFGS-B returned the
 acquisition value of another point

---
 bayes_optim/acquisition/optim/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index c336261..3af7ebb 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -85,9 +85,8 @@ def argmax_restart(
                 maxfun=eval_budget,
             )
             xopt_ = search_space.round(xopt_).ravel().tolist()
-            if not isinstance(fopt_, float):
-                fopt_ = float(fopt_)
-            fopt_ = -fopt_
+            # NOTE: `xopt_` might be rounded and L-BFGS-B might return the value of another point on abnormal termination
+            fopt_ = float(np.ravel(obj_func(np.array(xopt_))[0])[0])
 
             if logger is not None and stop_dict["warnflag"] != 0:
                 logger.debug("L-BFGS-B terminated abnormally with the state: %s" % stop_dict)
-- 
2.43.0


From 9e94c147ebacf2052e5242dafebb1b06db096a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:53 +0000
Subject: [PATCH 53/66] fix: partial_argument mixed up the entries of a
 gradient given as a list

---
 bayes_optim/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 8e5f364..38e66f1 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -207,7 +207,7 @@ def partial_argument(
                         elif v.shape[1] == len(masks):
                             v = v[:, ~masks]
                 elif isinstance(v, list) and len(v) == len(masks):
-                    v = [v[m] for m in ~masks]
+                    v = [v[i] for i in np.nonzero(~masks)[0]]
                 out.append(v)
             return tuple(out)
         return out_
-- 
2.43.0


From ddedca6592967205308eacb6b822f24bff2c07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:46 +0000
Subject: [PATCH 54/66] fix: conditions on negative values and on inequalities
 gave wrong subspaces

---
 bayes_optim/search_space/search_space.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 4e4c3fc..ba10fb1 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -29,11 +29,10 @@ _get_var = lambda c: Parser().parse(c).variables()[0]
 
 
 def _get_val(condition):
-    c = ast.parse(condition).body[0].value.comparators[0]
-    if hasattr(c, "n"):
-        return c.n
-    if hasattr(c, "s"):
-        return c.s
+    c = ast.parse(condition).body[0].value
+    if not isinstance(c, ast.Compare) or len(c.ops) != 1 or not isinstance(c.ops[0], ast.Eq):
+        raise ValueError(f"condition `{condition}` is not of the form `variable == value`")
+    return ast.literal_eval(c.comparators[0])
 
 
 class SearchSpace:
-- 
2.43.0


From 783bd0461a43f9e7ccbf62eddd4014225137963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:46 +0000
Subject: [PATCH 55/66] fix: a subspace without the root of a condition tree
 lost the conditions further down, or could not be split

---
 bayes_optim/search_space/search_space.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index ba10fb1..a153789 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -194,8 +194,14 @@ class SearchSpace:
             info = {"name": var.name, "condition": var.conditions["string"]}
             if info not in _structure.setdefault(key, []):
                 _structure[key].append(info)
-        self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
-        self.structure = [t for t in self.structure if t]
+        # only keep the variables of this space: a tree whose root is not in the space must not take its
+        # descendants along, and a variable without children does not condition anything
+        _structure = {
+            k: [info for info in v if info["name"] in self.var_name]
+            for k, v in _structure.items()
+            if k in self.var_name
+        }
+        self.structure = Node.from_dict(_structure)
 
     @staticmethod
     def __set_type(obj: SearchSpace) -> SearchSpace:
-- 
2.43.0


From fd2a7f0e195ab1c2867ce88d552494eb7b0c956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:46 +0000
Subject: [PATCH 56/66] fix: variables that are active together ended up in
 different unconditional subspaces

---
 bayes_optim/search_space/node.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index e671a7f..d26d3e6 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 from copy import copy, deepcopy
 from typing import Any, Dict, List, Tuple
 
@@ -172,17 +173,15 @@ class Node:
             return {(): None}
 
         path = dict()
-        for br in set(self.branches):
-            _path = [
-                ((br,) + p, v) if p else ((br,), [self.children[i].name])
-                for i in [i for i, b in enumerate(self.branches) if b == br]
-                for p, v in Node.get_all_path(self.children[i]).items()
+        for br in dict.fromkeys(self.branches):
+            # NOTE: all children on this branch are active together
+            _children = [c for c, b in zip(self.children, self.branches) if b == br]
+            _paths = [
+                list(Node.get_all_path(c).items()) if c.children else [((), [c.name])] for c in _children
             ]
-            _merged = dict()
-            for k, v in _path:
-                for vv in v:
-                    _merged.setdefault(k, []).append(vv)
-            path.update(_merged)
+            for item in itertools.product(*_paths):
+                key = (br,) + tuple(itertools.chain.from_iterable(k for k, _ in item))
+                path[key] = list(itertools.chain.from_iterable(v for _, v in item))
         return path
 
     def __str__(self) -> str:
-- 
2.43.0


From 4c619b5f86dcdb8156525c53419558b495d7d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:46 +0000
Subject: [PATCH 57/66] fix: adding or subtracting a space in place left its
 condition trees out of date

---
 bayes_optim/search_space/search_space.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a153789..d1555aa 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -343,6 +343,9 @@ class SearchSpace:
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
         self._set_data(self.data + deepcopy(space.data))
+        # backwards compatibility
+        if hasattr(self, "structure"):
+            self._set_structure(self.structure + space.structure)
         SearchSpace.__set_type(self)
         return self
 
@@ -367,6 +370,9 @@ class SearchSpace:
         _res = set(self.var_name) - set(space.var_name)
         _index = [self.var_name.index(_) for _ in _res]
         self._set_data([self.data[i] for i in range(self.dim) if i in _index])
+        # backwards compatibility
+        if hasattr(self, "structure"):
+            self._set_structure(self.structure)
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From aadab5a30dd92ee06b0745d8dea40e16df25d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:05 +0000
Subject: [PATCH 58/66] fix: a subset variable with a default value could not
 be read from JSON

---
 bayes_optim/search_space/search_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index d1555aa..20eeb24 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -681,6 +681,8 @@ class SearchSpace:
                 elif v["type"] in ["c", "cat"]:  # category-valued parameter
                     _vars = [Discrete(bounds, name=k, default_value=default_value) for _ in N]
                 elif v["type"] in ["s", "subset"]:  # subset parameter
+                    # NOTE: subsets are tuples, which are lists in JSON
+                    default_value = tuple(default_value) if isinstance(default_value, list) else default_value
                     _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
                 elif v["type"] in ["b", "bool"]:  # Boolean-valued
                     _vars = [Bool(name=k, default_value=default_value) for _ in N]
-- 
2.43.0


From b530483dac321cc33e32f0bcb23337bee47e73bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:04 +0000
Subject: [PATCH 59/66] fix: PCA-BO's penalized acquisition accepts points of
 the evolution strategy (Solution rows), which could not be added to the PCA
 mean

---
 bayes_optim/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 2964075..61c0ad1 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -62,7 +62,7 @@ class LinearTransform(PCA):
 def penalized_acquisition(x, acquisition_func, bounds, pca, return_dx):
     bounds_ = np.atleast_2d(bounds)
     # map back the candidate point to check if it falls inside the original domain
-    x_ = pca.inverse_transform(x)
+    x_ = pca.inverse_transform(np.asarray(x, dtype=float))
     idx_lower = np.nonzero(x_ < bounds_[:, 0])[0]
     idx_upper = np.nonzero(x_ > bounds_[:, 1])[0]
     penalty = -1 * (
-- 
2.43.0


From 293f0e91ef0c6e5c692c26f68f79845881f54d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:46 +0000
Subject: [PATCH 60/66] fix: with a nugget or an estimated noise, the GP's
 prediction and gradients used the correlation to the training data without
 the process' share of the variance

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 024c9b6..d8d7cb3 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -421,6 +421,10 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
         self.fit(X, y)
         return self
 
+    def _signal_ratio(self):
+        """The share of the process in the total variance, which `self.C` is normalized with"""
+        return np.ravel(self.sigma2 / (self.sigma2 + self.noise_var))[0]
+
     def predict(self, X, eval_MSE=False, batch_size=None):
         """
         This function evaluates the Gaussian Process model at x.
@@ -485,7 +489,8 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             # TODO: remove calculations of distances from here
             dx = l1_cross_distances(X, Y=self.X)
             # Get meanession function and correlation
-            r = self.corr(self.theta_, dx).reshape(n_eval, n_samples)
+            c = self._signal_ratio()
+            r = c * self.corr(self.theta_, dx).reshape(n_eval, n_samples)
             # Predictor
             y = (self.mean(X) + r.dot(self.gamma)).reshape(n_eval, n_targets)
 
@@ -500,7 +505,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     u = np.zeros((1, n_eval))
 
                 MSE = np.dot(
-                    (1.0 - (rt**2.0).sum(axis=0) + (u**2.0).sum(axis=0)).reshape(n_eval, -1),
+                    (1.0 - ((rt**2.0).sum(axis=0) - (u**2.0).sum(axis=0)) / c).reshape(n_eval, -1),
                     self.sigma2.reshape(1, -1),
                 )
                 # MSE = np.sqrt((MSE ** 2.0).sum(axis=0) / n_targets)
@@ -535,9 +540,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             return y
 
     def gradient(self, x):
-        """Calculate the gradient of the posterior mean and variance
-        Note that the nugget effect will not the change the computation below
-        """
+        """Calculate the gradient of the posterior mean and variance"""
         x = np.atleast_2d(x)
         n_eval, _ = x.shape
         n_samples, n_features = self.X.shape
@@ -556,6 +559,8 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
         d = l1_cross_distances(x, Y=self.X)
         r = self.corr(self.theta_, d).reshape(n_eval, n_samples)
         r_dx = self.corr_dx(x, X=self.X, r=r).T
+        c = self._signal_ratio()
+        r, r_dx = c * r, c * r_dx
 
         # gradient of the posterior mean
         y_dx = dot(self.mean.beta.T, f_dx) + self.gamma.T.dot(r_dx)
@@ -572,7 +577,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             Ft2inv = linalg.inv(dot(self.Ft.T, self.Ft))
             mse_dx += u.T.dot(Ft2inv).dot(u_dx)
 
-        mse_dx = 2.0 * self.sigma2 * mse_dx
+        mse_dx = 2.0 * self.sigma2 * mse_dx / c
         return y_dx.T, mse_dx.T
 
     def Hessian(self, x):
@@ -593,7 +598,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
         # The Hessian tensor of the correlation
         d = l1_cross_distances(x, Y=self.X)
         r = self.corr(self.theta_, d).reshape(n_eval, n_samples)
-        r_dx2 = self.corr_Hessian(x, X=self.X, r=r)
+        r_dx2 = self._signal_ratio() * self.corr_Hessian(x, X=self.X, r=r)
 
         return (f_dx2.dot(self.mean.beta) + r_dx2.dot(self.gamma))[..., 0]
 
-- 
2.43.0


From dd4765d9f8c31e89d59acfb619943333423e89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:06 +0000
Subject: [PATCH 61/66] fix: at a training point, the gradient of a GP with the
 Matern kernel was zero

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index d8d7cb3..43a674d 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -647,8 +647,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     if nu == 0.5:
                         grad = -diff * theta / D * r
                     elif nu == 1.5:
-                        grad = diff * theta / D
-                        grad *= -3.0 * D * exp(-c * D)
+                        grad = -3.0 * diff * theta * exp(-c * D)
                     elif nu == 2.5:
                         pass
 
-- 
2.43.0


From c5f6c3ecc3073c49998d0cea061f0aa59cfb2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:23 +0000
Subject: [PATCH 62/66] fix: GaussianProcessSklearn.gradient failed on several
 points of a one-dimensional space

---
 bayes_optim/surrogate/gaussian_process/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/__init__.py b/bayes_optim/surrogate/gaussian_process/__init__.py
index dbf9559..d1474a8 100755
--- a/bayes_optim/surrogate/gaussian_process/__init__.py
+++ b/bayes_optim/surrogate/gaussian_process/__init__.py
@@ -187,7 +187,7 @@ class GaussianProcessSklearn:
                 setattr(gp, "_K_inv", L_inv.dot(L_inv.T))
 
             mean_dx[i, ...] = scale * k_dx @ gp.alpha_
-            var_dx[i, ...] = -2.0 * scale**2 * np.squeeze(k_dx @ getattr(gp, "_K_inv") @ k)
+            var_dx[i, ...] = -2.0 * scale**2 * np.squeeze(k_dx @ getattr(gp, "_K_inv") @ k, axis=2)
         return mean_dx, var_dx
 
     def kernel_dx(self, gp: sk_gpr, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 21d5ab2d4b8ce28f5e91d6b437e8c99a02b8d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:52 +0000
Subject: [PATCH 63/66] fix: training a GP with estimated noise never ended
 when its likelihood was rejected

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 43a674d..c8bbaa2 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -390,7 +390,8 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     print("Invalid likelihood value. Increasing nugget...")
 
                     # TODO: maybe turn the working mode to 'noise_estim' directly
-                    if self.estimation_mode == "noiseless":
+                    # only the "noisy" mode makes use of `noise_var`
+                    if self.estimation_mode != "noisy":
                         self.estimation_mode = "noisy"
                         self.noise_var = 1e-5
                     else:
-- 
2.43.0


From f91fbc5824d2fb6fdaee94aacf29d62c04301be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:03 +0000
Subject: [PATCH 64/66] fix: accept zero as a random seed

---
 bayes_optim/_base.py                                 | 7 +++----
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index a0c3541..91036a7 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -149,10 +149,9 @@ class BaseOptimizer:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def search_space(self):
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 01a3536..214d476 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -178,10 +178,9 @@ class OnePlusOne_CMA(object):
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def C(self):
-- 
2.43.0


From ad9a067c2440016a33243ddd86bffcde9ab5adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:03 +0000
Subject: [PATCH 65/66] fix: do not restart the random numbers when slicing a
 search space

---
 bayes_optim/search_space/search_space.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 20eeb24..15c474f 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -130,7 +130,8 @@ class SearchSpace:
         if seed:
             seed = int(seed)
         self._random_seed = seed
-        np.random.seed(self._random_seed)
+        if seed is not None:
+            np.random.seed(self._random_seed)
 
     @staticmethod
     def _ready_args(bounds, var_name, **kwargs):
@@ -268,7 +269,10 @@ class SearchSpace:
         if isinstance(data, Variable):
             out = data
         elif isinstance(data, list):
-            out = SearchSpace(data, self.random_seed)
+            out = SearchSpace(data)
+            # NOTE: the seed is handed over without restarting the random numbers, since slicing
+            # happens in the midst of sampling
+            out._random_seed = self.random_seed
             # backwards compatibility
             if hasattr(self, "structure"):
                 getattr(out, "_set_structure")(self.structure)
-- 
2.43.0


From b5c2b2dbeb341c61899370f8222027522efe69ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:03 +0000
Subject: [PATCH 66/66] fix: keep the order of the unconditional variables in
 the sub-spaces

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 15c474f..f2f80f0 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -722,7 +722,7 @@ class SearchSpace:
             # all variables in the conditional structure
             _var = _reduce([t.get_all_name() for t in self.structure])
             # remaining variables not affected by conditions
-            isolated_var = [self[v] for v in set(self.var_name) - set(_var)]
+            isolated_var = [self[v] for v in self.var_name if v not in _var]
             out, d = list(), dict()
             # all paths in the conditional tree
             paths = [list(root.get_all_path().items()) for root in self.structure]
-- 
2.43.0

