From 8d6fda117ba3c224a5f746bcb511ce29c5f820eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:58 +0000
Subject: [PATCH 01/53] fix: drop explicitly stored zeros when casting to
 dok_matrix

Stored zeros became zero-probability transitions in successors, reachability and end components.
---
 switss/utils/casting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/utils/casting.py b/switss/utils/casting.py
index f6653da..311842f 100644
--- a/switss/utils/casting.py
+++ b/switss/utils/casting.py
@@ -15,4 +15,8 @@ def cast_dok_matrix(obj):
         if len(obj.shape) == 1:
             obj = np.array([obj]).T
     
-    return dok_matrix(obj)
\ No newline at end of file
+    res = dok_matrix(obj)
+    # explicitly stored zeros are not entries of the matrix
+    for key in [k for k,v in res.items() if v == 0]:
+        del res[key]
+    return res
-- 
2.43.0


From e7699fc0196a6abecdc0eb2173804d79ed8956e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:58 +0000
Subject: [PATCH 02/53] fix: make AbstractMDP.strongly_connected_components
 callable

The Graph method it called is a cdef method, so every call raised AttributeError.
---
 switss/model/amdp.py   |  2 +-
 switss/utils/graph.pyx | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 59afa98..0317d85 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -188,7 +188,7 @@ class AbstractMDP(ABC):
         :return: A :math:`N_{S_{\\text{all}}}`-dimensional vector containing the index of the SCC every state belongs to and the number of SCCs.
         :rtype: Tuple[np.ndarray[int],int]
         """        
-        return self.__graph.strongly_connected_components()
+        return self.__graph.all_strongly_connected_components()
 
     def maximal_end_components(self):
         """Returns the Maximal End Components (MECs) of this model.
diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 278b147..0b7f5ea 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -173,6 +173,27 @@ cdef class Graph:
 
         return scc_counter-1
 
+    # computes the strongly connected components of the whole graph.
+    # returns a pair (sccs,nr_sccs) where sccs contains for each state the index of the scc it belongs to
+    def all_strongly_connected_components(self):
+        ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
+        cdef int* sccs = <int *> malloc(self.nodecount * sizeof(int))
+        cdef TNode* treap = NULL
+        cdef int j = 0
+
+        while j < self.nodecount:
+            treap = add_to_treap(treap,j)
+            j += 1
+
+        nr_sccs = self.strongly_connected_components(treap,sccs)
+
+        for i in range(self.nodecount):
+            ret[i] = sccs[i]-1
+
+        free_treap(treap)
+        free(sccs)
+        return ret, nr_sccs
+
     # computes the maximal end components of a graph. r
     # returns a triple (mecs,p_mecs,nr_mecs) where mecs is a vector containing for each state the mec-index it belongs to,
     # p_mecs is a Boolean vector which contains "True" for in position i iff the mec with index i is proper, and nr_mecs is the total
-- 
2.43.0


From a196056c583d308cf1ffe1b65deb8c654d66106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 03/53] fix: LP.add_variables passed the domains as separate
 arguments

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b9fdf46..f9f6cc8 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -337,7 +337,7 @@ class LP(MILP):
         :return: Index or indices of new variables.
         :rtype: either List[int] or int.
         """        
-        return MILP.add_variables(self, *["real"]*count)
+        return MILP.add_variables(self, ["real"]*count)
 
 
 class GurobiMILP(MILP):
-- 
2.43.0


From 6f58ffffe67ff9f3e4a143ea7ba14641d6e20588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 04/53] fix: MILP.remove_constraint takes the index
 add_constraint returned

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index f9f6cc8..32374e6 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -169,7 +169,7 @@ class MILP:
         :param constridx: the name of the constraint
         :type constridx: str
         """        
-        self.__pulpmodel.constraints.pop(constridx)
+        self.__pulpmodel.constraints.pop(self.__constraints[constridx].name)
 
     def add_variables(self, domains):
         """Adds a list of variables to this MILP. Each element in `domains` must be either `integer`, `binary` or `real`.
-- 
2.43.0


From b2a8ad10a715931cea625a40ae88656705fa7661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 05/53] fix: setting the objective again replaces the old
 objective

---
 switss/solver/milp.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 32374e6..c2332b0 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -54,7 +54,6 @@ class MILP:
         self.__pulpmodel = pulp.LpProblem("",objective)
         self.__variables = [] 
         self.__constraints = []
-        self.__set_objective_function = False
 
     def solve(self, solver="cbc",timeout=None,print_output=False):
         """Solves this problem and returns the problem result.
@@ -120,12 +119,7 @@ class MILP:
         :type expression: List[Tuple[int,float]]
         """        
         self._assert_expression(expression)
-        if not self.__set_objective_function:
-            self.__set_objective_function = True
-            self.__pulpmodel += pulp.LpAffineExpression(self._expr_to_pulp(expression))
-        else:
-            for var,coeff in expression:
-                self.__pulpmodel.objective[self.__variables[var]] = coeff
+        self.__pulpmodel.objective = pulp.LpAffineExpression(self._expr_to_pulp(expression))
         
     def add_constraint(self, lhs, sense, rhs):
         """Adds a constraint of the form
-- 
2.43.0


From 342c0a28d16b02e84d7227a5c8b1cdcf57c7e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 06/53] fix: repeated variables in an expression add up

---
 switss/solver/milp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index c2332b0..a9f1242 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -102,7 +102,11 @@ class MILP:
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _expr_to_pulp(self, expression):
+        # a variable may occur several times, its coefficients add up
+        coeffs = {}
         for var, coeff in expression:
+            coeffs[var] = coeffs.get(var, 0) + coeff
+        for var, coeff in coeffs.items():
             yield self.__variables[var], coeff
 
     def set_objective_function(self, expression):
-- 
2.43.0


From a017d2f0804bf2c4d48ef42f91e684ae2475901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 07/53] fix: programs without objective function can be solved

---
 switss/solver/milp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index a9f1242..ed8d609 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -52,6 +52,7 @@ class MILP:
         assert objective in ["min", "max"], "objective must be either 'min' or 'max'"
         objective = { "min" : pulp.LpMinimize, "max" : pulp.LpMaximize }[objective]
         self.__pulpmodel = pulp.LpProblem("",objective)
+        self.__pulpmodel.objective = pulp.LpAffineExpression()
         self.__variables = [] 
         self.__constraints = []
 
-- 
2.43.0


From 96d8a13b4ff2ac896ad3927df5df6a3a3552310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 08/53] fix: variables that occur in no constraint are part of
 the program

---
 switss/solver/milp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index ed8d609..dba1be4 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -124,7 +124,9 @@ class MILP:
         :type expression: List[Tuple[int,float]]
         """        
         self._assert_expression(expression)
-        self.__pulpmodel.objective = pulp.LpAffineExpression(self._expr_to_pulp(expression))
+        self.__pulpmodel.objective = pulp.LpAffineExpression({ var : 0 for var in self.__variables })
+        for var,coeff in self._expr_to_pulp(expression):
+            self.__pulpmodel.objective[var] = coeff
         
     def add_constraint(self, lhs, sense, rhs):
         """Adds a constraint of the form
@@ -193,6 +195,8 @@ class MILP:
             varidx = len(self.__variables)
             var = pulp.LpVariable("x%d" % varidx, lowBound=lb, upBound=ub, cat=cat)
             self.__variables.append(var)
+            # mentioning every variable in the objective makes it part of the program
+            self.__pulpmodel.objective[var] = 0
 
             if len(var_descr) == 1:
                 return varidx
-- 
2.43.0


From c2269461cf55d2b6429c89ee9d8ea7732212222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 09/53] fix: binary variables keep their bounds

---
 switss/solver/milp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index dba1be4..ae6099e 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -194,6 +194,9 @@ class MILP:
             cat = { "real" : pulp.LpContinuous, "integer" : pulp.LpInteger, "binary" : pulp.LpBinary }[domain]
             varidx = len(self.__variables)
             var = pulp.LpVariable("x%d" % varidx, lowBound=lb, upBound=ub, cat=cat)
+            if domain == "binary":
+                # pulp replaces the bounds of binary variables by 0 and 1
+                var.bounds(0 if lb is None else max(0,lb), 1 if ub is None else min(1,ub))
             self.__variables.append(var)
             # mentioning every variable in the objective makes it part of the program
             self.__pulpmodel.objective[var] = 0
-- 
2.43.0


From 67753a7d4f37556316a5058d5c66854f86a2040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 10/53] fix: MILP.from_coefficients accepts opt=None as
 documented

---
 switss/solver/milp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index ae6099e..61f0557 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -242,7 +242,7 @@ class MILP:
         b = cast_dok_matrix(b)
 
 
-        opt = cast_dok_matrix(opt)
+        opt = cast_dok_matrix(opt) if opt is not None else None
 
         model = MILP(objective=objective)
 
@@ -253,7 +253,8 @@ class MILP:
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
-- 
2.43.0


From c208bb72747c11bb0d32cbad4ed45c9b12d901c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 11/53] fix: LP.from_coefficients accepts nested lists as
 documented

---
 switss/solver/milp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 61f0557..c932c13 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -334,6 +334,7 @@ class LP(MILP):
         :return: The resulting LP.
         :rtype: solver.LP
         """
+        A = cast_dok_matrix(A)
         return MILP.from_coefficients(A,b,opt,["real"]*A.shape[1],sense=sense,objective=objective)
 
     def add_variables(self, count):
-- 
2.43.0


From a15f574e67db3c700f15dfd1799bc770a969c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 12/53] fix: a solution found before a timeout is not reported
 as optimal

---
 switss/solver/milp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index c932c13..391c530 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -92,6 +92,10 @@ class MILP:
                     -1:"infeasible", 
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
+        if status == "optimal" and self.__pulpmodel.sol_status != pulp.LpSolutionOptimal:
+            # stopped early (timeout) with a solution that need not be optimal
+            status = "notsolved"
+
         result_vector = np.array([var.value() for var in self.__variables])
         value = self.__pulpmodel.objective.value()
 
-- 
2.43.0


From 6ae296fa3b72a6d1daa8199c45f51b7d80f00cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 13/53] fix: InvertibleDict does not change the sets it is
 created from

---
 switss/utils/invertible_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/invertible_dict.py b/switss/utils/invertible_dict.py
index beca0b7..cfb24fd 100644
--- a/switss/utils/invertible_dict.py
+++ b/switss/utils/invertible_dict.py
@@ -30,7 +30,8 @@ class InvertibleDict:
         for k,v in d.items():
             assert isinstance(v,set), "each value must be a set, but value at key=%s is of type %s" % (k,type(v))
 
-        self.__d = d.copy()
+        # copy the sets as well, since they are changed by add and remove
+        self.__d = { k : set(v) for k,v in d.items() }
         self.__i = None
         self.__is_default = is_default
 
-- 
2.43.0


From 18530d555baf5ed167c7ab09401dc2011e267c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 14/53] fix: models do not share the label mappings they are
 created from

---
 switss/model/amdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 0317d85..2fad59d 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -45,11 +45,11 @@ class AbstractMDP(ABC):
         self.index_by_state_action = bidict(index_by_state_action)
         self.reward_vector = reward_vector
         if isinstance(label_to_actions,InvertibleDict):
-            self.__label_to_actions_invertible = label_to_actions
+            self.__label_to_actions_invertible = InvertibleDict(dict(label_to_actions.items()), is_default=True)
         else:
             self.__label_to_actions_invertible = InvertibleDict(label_to_actions, is_default=True)
         if isinstance(label_to_states,InvertibleDict):
-            self.__label_to_states_invertible = label_to_states
+            self.__label_to_states_invertible = InvertibleDict(dict(label_to_states.items()), is_default=True)
         else:
             self.__label_to_states_invertible = InvertibleDict(label_to_states, is_default=True)
         self.__check_correctness()
-- 
2.43.0


From c8acb874053f3d7358ee5d90c93869a7a4dc1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 15/53] fix: negative rewards are rejected with an
 AssertionError

---
 switss/model/amdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 2fad59d..38fb924 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -78,7 +78,7 @@ class AbstractMDP(ABC):
         #make sure rewards are nonnegative
         if self.reward_vector is not None:
             for i in range(self.C):
-                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,reward_vector[i])
+                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,self.reward_vector[i])
 
     @property
     def states_by_label(self):
-- 
2.43.0


From 61952ccf4733c3641bb22811d1189bf0695d37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 16/53] fix: save probabilities with full precision

---
 switss/model/dtmc.py | 2 +-
 switss/model/mdp.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 733f277..bc0f1ee 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -106,7 +106,7 @@ class DTMC(AbstractMDP):
             tra_file.write("%d %d\n" % (self.N, self.P.nnz))
             for (rowidx,dest), p in self.P.items():
                 source,_ = self.index_by_state_action.inv[rowidx]
-                tra_file.write("%d %d %f\n" % (source, dest, p))
+                tra_file.write("%d %d %.17g\n" % (source, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 10a04b5..3fc6e2a 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -124,7 +124,7 @@ class MDP(AbstractMDP):
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
-                    tra_file.write("%d %d %d %f\n" % (source, action, dest, p))
+                    tra_file.write("%d %d %d %.17g\n" % (source, action, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
-- 
2.43.0


From 57ebf3348e910316243e2a3e5c7a94b672f739e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 17/53] fix: treap_from_arr terminates

---
 switss/utils/treaps.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/switss/utils/treaps.pyx b/switss/utils/treaps.pyx
index cba336c..3ca53ac 100644
--- a/switss/utils/treaps.pyx
+++ b/switss/utils/treaps.pyx
@@ -99,6 +99,7 @@ cdef TNode* treap_from_arr(int* arr, int arr_size):
     cdef int i = 0
     while i < arr_size:
         treap = add_to_treap(treap, arr[i])
+        i += 1
     return treap
 
 cdef void treap_to_arr(TNode* treap, int* arr):
-- 
2.43.0


From f6db4b2954ee1d0bd2785825b5f4da145bf5e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 18/53] fix: accept prism constants given as a dictionary

---
 switss/prism/prism.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index f34d33e..17ab69c 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -62,7 +62,7 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
     :return: True, if model was constructed successfully, otherwise False.
     :rtype: bool
     """    
-    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in prism_constants])]) if len(prism_constants) > 0 else []
+    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in dict(prism_constants).items()])]) if len(prism_constants) > 0 else []
 
     with tempfile.NamedTemporaryFile() as namedtf:
         with open(model_path,"rb") as model_file:
-- 
2.43.0


From 6618fad20d293de9c071c95071f69dbe3f49bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 19/53] fix: accept extra labels given as a dictionary

---
 switss/prism/prism.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index 17ab69c..48583b4 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -69,7 +69,7 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
             copyfileobj(model_file,namedtf)
 
         # write the extra labels to the prism model description
-        for (label_name, label_expr) in extra_labels:
+        for (label_name, label_expr) in dict(extra_labels).items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
 
-- 
2.43.0


From 5f60e106d032c4b451232cf3305515a0d5148680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 20/53] fix: choice labels belong to the choice state they were
 read from

---
 switss/model/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 3fc6e2a..2d58259 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -268,8 +268,8 @@ class MDP(AbstractMDP):
                 stormpy_cid = stormpy_model.get_choice_index(sid,aid)
                 actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)
                 for alabel in actionlabels:
-                    label_to_states[alabel].add(N+max_index)
-                label_to_states["choice"].add(N+max_index)
+                    label_to_states[alabel].add(N+index)
+                label_to_states["choice"].add(N+index)
 
                 for transition in action.transitions:
                     P[C+index,transition.column] = transition.value()
-- 
2.43.0


From 0ab84346cf8d947616038dceed3e2a9fbd4aac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 21/53] fix: DTMC.from_stormpy passes choice_model

---
 switss/model/dtmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index bc0f1ee..5ed8fc1 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -141,12 +141,12 @@ class DTMC(AbstractMDP):
         return { "P" :  P }
 
     @classmethod
-    def from_stormpy_model(cls,stormpy_model):
+    def from_stormpy_model(cls,stormpy_model,choice_model=False):
         
         #assert stormpy_model.model_type == "ModelType.MDP"
+        assert not choice_model, "choice models are only available for MDPs"
 
         P = dok_matrix((1,1))
-        index_by_state_action = bidict()
         N = stormpy_model.nr_states
 
         P.resize((N,N))
-- 
2.43.0


From cac012354f2e058a718b6c34a67224fb6ad06a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 22/53] fix: DTMCs imported from stormpy keep their state
 labels

---
 switss/model/dtmc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 5ed8fc1..ce972ed 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -1,4 +1,5 @@
 from bidict import bidict
+from collections import defaultdict
 from graphviz import Digraph
 from scipy.sparse import dok_matrix
 
@@ -147,14 +148,17 @@ class DTMC(AbstractMDP):
         assert not choice_model, "choice models are only available for MDPs"
 
         P = dok_matrix((1,1))
+        label_to_states = defaultdict(set)
         N = stormpy_model.nr_states
 
         P.resize((N,N))
 
         for state in stormpy_model.states:
             sid = state.id
+            for label in stormpy_model.labeling.get_labels_of_state(sid):
+                label_to_states[label].add(sid)
             for action in state.actions:
                 for transition in action.transitions:
                     P[sid,transition.column] = transition.value()
 
-        return { "P" : P }
+        return { "P" : P, "label_to_states" : label_to_states }
-- 
2.43.0


From 7787ddc872f1ee0f781aa072cfbb65c201127178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 23/53] fix: reduction does not turn rounding errors into
 transitions to fail

---
 switss/model/reachability_form.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 77fe67f..cd142a6 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -329,6 +329,7 @@ class ReachabilityForm:
             print("shape of new_P (%s,%s)" % (new_C,new_N))
 
         to_target = np.zeros(new_C)
+        to_fail = np.zeros(new_C)
 
         # mask for faster access
         target_mask = np.zeros(system.N, dtype=bool)
@@ -345,6 +346,8 @@ class ReachabilityForm:
                     if dest in to_rf_cols:
                         newdest = to_rf_cols[dest]
                         new_P[newidx, newdest] = system.P[idx, dest]
+                    else:
+                        to_fail[newidx] += system.P[idx, dest]
         if debug:
             print("computed transition matrix & to_target")
 
@@ -352,6 +355,7 @@ class ReachabilityForm:
             new_P, 
             new_index_by_state_action,
             to_target, 
+            to_fail,
             to_rf_rows, 
             system, 
             new_target_label, 
@@ -369,7 +373,7 @@ class ReachabilityForm:
         return rf, to_rf_cols, to_rf_rows
 
     @staticmethod
-    def __initialize_system(P, index_by_state_action, to_target, mapping, configuration, target_label, fail_label):
+    def __initialize_system(P, index_by_state_action, to_target, to_fail, mapping, configuration, target_label, fail_label):
         C,N = P.shape
         P_compl = dok_matrix((C+2, N+2))
         target_state, fail_state = N, N+1
@@ -408,15 +412,12 @@ class ReachabilityForm:
         label_to_states[fail_label].add(fail_state)
         label_to_states[target_label].add(target_state)
 
-        not_to_fail = np.zeros(C)
         for (idx, dest), p in P.items():
-            not_to_fail[idx] += p
             P_compl[idx, dest] = p
 
-        for idx, p_target in enumerate(to_target):
+        for idx, (p_target,p_fail) in enumerate(zip(to_target,to_fail)):
             if p_target > 0:
                 P_compl[idx, target_state] = p_target
-            p_fail = 1 - (p_target + not_to_fail[idx])
             if p_fail > 0:
                 P_compl[idx, fail_state] = p_fail
 
-- 
2.43.0


From b71f92242f8bc9ef091c53ee588ab57779e44848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 24/53] fix: Farkas systems returned earlier do not change with
 later thresholds

---
 switss/model/reachability_form.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index cd142a6..c34d689 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -513,7 +513,7 @@ class ReachabilityForm:
 
         if (self.__fark_z_matr is not None) and (self.__fark_z_rhs is not None):
             self.__fark_z_rhs[C] = -threshold
-            return self.__fark_z_matr, self.__fark_z_rhs
+            return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
         self.__fark_z_rhs = self.to_target.A1.copy()
         self.__fark_z_rhs.resize(C+1)
@@ -524,7 +524,7 @@ class ReachabilityForm:
 
         self.__fark_z_matr = vstack((self.A,-delta))
 
-        return self.__fark_z_matr, self.__fark_z_rhs
+        return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
     def fark_y_constraints(self, threshold):
         """ 
@@ -548,7 +548,7 @@ p        .. math::
 
         if (self.__fark_y_matr is not None) and (self.__fark_y_rhs is not None):
             self.__fark_y_rhs[N] = -threshold
-            return self.__fark_y_matr, self.__fark_y_rhs
+            return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
         b = cast_dok_matrix(self.to_target)
 
@@ -558,7 +558,7 @@ p        .. math::
 
         self.__fark_y_matr = hstack((self.A,-b)).T
 
-        return self.__fark_y_matr, self.__fark_y_rhs
+        return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
     def _reach_form_id_matrix(self):
         """Computes the matrix :math:`I` for a given reachability form that for every row (st,act) has an entry 1 at the column corresponding to st."""
-- 
2.43.0


From d46304089a5289036d1097006c6a59820fe343e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 25/53] fix: max_y_state sums up the state-action frequencies
 only

---
 switss/model/reachability_form.py        | 1 -
 switss/model/reward_reachability_form.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index c34d689..20f5aaa 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -667,7 +667,6 @@ p        .. math::
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 60d7e50..84d2501 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -309,7 +309,6 @@ class RewardReachabilityForm:
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
-- 
2.43.0


From 44b40b74b7dad95cb73067a43ca992764a08c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 26/53] fix: RewardReachabilityForm.reduce uses the requested
 target label

---
 switss/model/reward_reachability_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 84d2501..5af42a7 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -62,7 +62,7 @@ class RewardReachabilityForm:
     @staticmethod
     def reduce(system, initial_label, target_label, new_target_label="rrf_target", debug=False, ignore_consistency_checks=False):
 
-        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label)
+        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label, new_target_label, debug=debug)
         RewardReachabilityForm.assert_reachform_consistency(reach_form)
 
         return RewardReachabilityForm(reach_form, reach_form.system.reward_vector[:-2]), to_rf_cols, to_rf_rows
-- 
2.43.0


From a550314c0bffabe561381a3e469cc19a060775b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 27/53] fix: RewardReachabilityForm.fromsystem builds the form
 without changing the system

---
 switss/model/reward_reachability_form.py | 25 ++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 5af42a7..48d4ce4 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -47,16 +47,29 @@ class RewardReachabilityForm:
             RewardReachabilityForm.assert_system_consistency(system, initial_label, target_label)
 
         # add a dummy fail state, which is required for reachability form
-        N = system.P.N
-        C = system.P.C
+        N = system.N
+        C = system.C
 
-        system.P.resize(C + 1, N + 1)
-        system.P[C + 1, N + 1] = 1
+        P = system.P.copy()
+        P.resize((C + 1, N + 1))
+        P[C, N] = 1
 
-        system.add_label(N, "rf_fail")
+        index_by_state_action = system.index_by_state_action.copy()
+        index_by_state_action[(N,0)] = C
+
+        rf_system = type(system)(
+            P=P,
+            index_by_state_action=index_by_state_action,
+            label_to_actions=system.actions_by_label,
+            label_to_states=system.states_by_label,
+            vis_config=system.visualization,
+            reward_vector=np.array([system.reward_vector[i] for i in range(C)] + [0], dtype=float))
+        rf_system.add_label(N, "rf_fail")
 
         # initialize underlying reachability form
-        return cls(ReachabilityForm(system, initial_label, target_label,"rf_fail",ignore_consistency_checks), system.reward_vector[:-2])
+        return cls(
+            ReachabilityForm(rf_system, initial_label, target_label, "rf_fail", ignore_consistency_checks), 
+            rf_system.reward_vector[:-2])
 
 
     @staticmethod
-- 
2.43.0


From 07ea583a4d6376a399ba98463969c29537504fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 28/53] fix: reward reachability forms offer what subsystems
 and groupings need

---
 switss/model/reward_reachability_form.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 48d4ce4..e8af819 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -22,6 +22,7 @@ class RewardReachabilityForm:
         del self.__index_by_state_action.inv[self.__system.C-1]
 
         self.target_label = reachability_form.target_label
+        self.fail_label = reachability_form.fail_label
         self.initial_label = reachability_form.initial_label
         self.initial = reachability_form.initial
 
@@ -34,6 +35,14 @@ class RewardReachabilityForm:
     def A(self):
         return self.__A
 
+    @property
+    def index_by_state_action(self):
+        return self.__index_by_state_action
+
+    @property
+    def to_target(self):
+        return self.__reach_form.to_target
+
     @property
     def is_ec_free(self):
         return True
-- 
2.43.0


From daddadbaba51e7442d9a1177527f818d9cc99247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 29/53] fix: subsystems map action labels to their actions

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1c0be70..b353fdc 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -115,7 +115,8 @@ class Subsystem:
                 actionlabels = reach_form.system.labels_by_action[(source,action)]
                 new_source = new_to_old_states.inv[source]
                 new_index_by_state_action[(new_source,action)] = new_C
-                new_label_to_actions[(new_source,action)] = actionlabels
+                for l in actionlabels:
+                    new_label_to_actions[l].add((new_source,action))
                 new_C += 1
 
         fail_state, target_state = new_N + 1, new_N
-- 
2.43.0


From 6115849cab9740de7ac9a4e437d1cfc7cfae10ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 30/53] fix: subsystems do not turn rounding errors into
 transitions to fail

---
 switss/problem/subsystem.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index b353fdc..4f84c4f 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -130,21 +130,23 @@ class Subsystem:
         new_P[new_C+1, fail_state] = 1
         new_P[new_C, target_state] = 1
 
-        not_to_fail = np.zeros(new_C)
+        to_fail = np.zeros(new_C)
 
         # Populate the new transition matrix
         for (rowidx,target), prob in P.items():
             (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
-            if target >= N-2 or source >= N-2:
+            if target == N-2 or source >= N-2:
                 # P also contains target & fail state - but state_vector only has N-2 entries
                 continue
 
-            if state_vector[source] == True and state_vector[target] == True:
+            if state_vector[source] == True:
                 new_source = new_to_old_states.inv[source]
-                new_target = new_to_old_states.inv[target]
                 new_row_idx = new_index_by_state_action[(new_source,action)]
-                new_P[new_row_idx,new_target] = prob
-                not_to_fail[new_row_idx] += prob
+                if target < N-2 and state_vector[target] == True:
+                    new_target = new_to_old_states.inv[target]
+                    new_P[new_row_idx,new_target] = prob
+                else:
+                    to_fail[new_row_idx] += prob
 
         # populate probabilities to fail
         # maps every target state with probability 1 to itself.
@@ -154,7 +156,7 @@ class Subsystem:
                 new_source = new_to_old_states.inv[source]
                 new_row_idx = new_index_by_state_action[(new_source,action)]
                 new_P[new_row_idx, target_state] = p_target 
-                new_P[new_row_idx, fail_state] = 1 - (p_target + not_to_fail[new_row_idx])
+                new_P[new_row_idx, fail_state] = to_fail[new_row_idx]
 
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
-- 
2.43.0


From 70d8c12ba388a6936cb79a140f1672106166ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 31/53] fix: Farkas certificates have to be nonnegative

---
 switss/certification/certificates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 2e29d93..f030399 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -110,6 +110,10 @@ def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol
                 if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0):
                     return False
 
+    # certificates are nonnegative
+    if not (farkas_vec >= -tol).all():
+        return False
+
     res_vec = farkas_matr.dot(farkas_vec)
 
     if sense == "<=":
-- 
2.43.0


From 284d826330008b7ca94947aae459e6d1953d8922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 32/53] fix: zero variables of y-certificates are state-action
 indices

---
 switss/certification/certificates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index f030399..c4f6431 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -166,7 +166,7 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
             for idx in range(D):
                 (s,a) = reach_form.index_by_state_action.inv[idx]
                 if reach_form.in_proper_ec(s):
-                    zero_vars.append(s)
+                    zero_vars.append(idx)
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-- 
2.43.0


From 2ab3f083ba84b859dfb36d81030cf2510a00b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 33/53] fix: labels of goal, fail or no state do not disturb
 label groups

---
 switss/problem/formulations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 621fc68..ee12f0e 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -91,8 +91,10 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
     elif mode == "min":
         groups = {}
         for label in labels:
-            states = rf.system.states_by_label[label]
-            groups[label] = states
+            # goal and fail are not part of the certificate
+            states = { s for s in rf.system.states_by_label[label] if s < certificate_size(rf, mode) }
+            if len(states) > 0:
+                groups[label] = states
         return InvertibleDict(groups)
     else:
         groups = InvertibleDict({})
@@ -102,7 +104,8 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
                 actions = rf.system.actions_by_state[state]
                 for action in actions:
                     sap = rf.system.index_by_state_action[(state, action)]
-                    groups.add(label, sap)
+                    if sap < certificate_size(rf, mode):
+                        groups.add(label, sap)
         return groups
 
 def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_real_indicator_constrs=False, indicator_domain="real"):
-- 
2.43.0


From 6f64587e619464b3e4ab9fd7d0219aa9c2468326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 34/53] fix: switss minimize passes the mode to the solving
 step and skips missing results

---
 bin/switss | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bin/switss b/bin/switss
index 0b610a8..398da26 100755
--- a/bin/switss
+++ b/bin/switss
@@ -82,6 +82,9 @@ def minargs(args):
             methodparams[k] = {C.__name__ : C for C in [
                 InverseResultUpdater
             ]}[methodparams[k]]
+    # the mode is a parameter of the solving step, not of the method.
+    mode = methodparams.pop("mode", None)
+    assert mode in ["min", "max"], "Mode must be either min or max"
     method = methodtype(**methodparams)
     vprint("method is %s" % method)
 
@@ -96,10 +99,13 @@ def minargs(args):
 
     vprint("solving with parameters %s" % ", ".join(["%s=%s" % it for it in solveparams.items()]))
 
-    info = { "method" : method.details, "instances" : [] }
+    info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
+        if result.status != "success":
+            vprint("instance %s has no result, status is %s" % (idx,result.status))
+            return
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
-        check = check_farkas_certificate(rf, methodparams["mode"], ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
+        check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
         instance = { "iteration" : idx,
                      "threshold" : solveparams["threshold"],
@@ -107,10 +113,10 @@ def minargs(args):
         info["instances"].append(instance)
 
     if len(args.solve_iter) > 0:
-        for idx, result in enumerate(method.solveiter(rf, **solveparams)):
+        for idx, result in enumerate(method.solveiter(rf, mode=mode, **solveparams)):
             process_result(idx, result)            
     elif len(args.solve) > 0:
-        process_result(0, method.solve(rf, **solveparams))
+        process_result(0, method.solve(rf, mode=mode, **solveparams))
         
     output = args.certificate if args.certificate is not None else args.modelpath + ".certificates.json" 
     vprint("storing results @ %s" % output, end=" - ")
-- 
2.43.0


From 23b754e0a0421c7bcfc877dd546560b41ada142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 35/53] fix: switss subsystem copies the system by building it
 again

---
 bin/switss | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/switss b/bin/switss
index 398da26..d3aa7d3 100755
--- a/bin/switss
+++ b/bin/switss
@@ -2,7 +2,6 @@
 
 import argparse
 import json
-import copy
 import numpy as np
 
 from switss.utils import color_from_hash 
@@ -151,7 +150,12 @@ def subsysargs(args):
         output = "%s-%s" % (output, iteration)
         vprint("generating subsystem %s" % output,end=" - ")
         ss = Subsystem(rf, certificate, minfo["mode"])
-        sys = copy.deepcopy(rf.system)
+        # models contain extension types, which can't be deep-copied.
+        sys = type(rf.system)(
+            P=rf.system.P,
+            index_by_state_action=rf.system.index_by_state_action,
+            label_to_states=rf.system.states_by_label,
+            label_to_actions=rf.system.actions_by_label)
         for s,inss in enumerate(ss.subsystem_mask):
             if inss:
                 sys.labels_by_state.add(s, args.subsys_label)
-- 
2.43.0


From 3c3f734a3d118379127c81d9f13fcd89ccf59eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 36/53] fix: rows that do not sum to one are rejected with an
 AssertionError

---
 switss/model/amdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 38fb924..6a9360b 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -68,7 +68,7 @@ class AbstractMDP(ABC):
 
         """
         # make sure all rows of P sum to one
-        for idx,s in enumerate(self.P.sum(axis=1)):  
+        for idx,s in enumerate(self.P.sum(axis=1).A1):  
             assert np.round(s,9) == 1, "Sum of row %d of P is %f but should be 1." % (idx, s)
         # make sure that all values x are 0<=x<=1
         for (i,j), p in self.P.items():
-- 
2.43.0


From d56eb1c0c26687bcae5c7e7cffbd5e8f17d0cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 37/53] fix: non-square matrices of DTMCs are rejected with an
 AssertionError

---
 switss/model/dtmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index ce972ed..59134eb 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -26,7 +26,7 @@ class DTMC(AbstractMDP):
         """
         # transform P into dok_matrix if neccessary
         P =  cast_dok_matrix(P)  
-        assert P.shape[0] == P.shape[1], "P must be a (NxN)-matrix but has shape %s" % P.shape
+        assert P.shape[0] == P.shape[1], "P must be a (NxN)-matrix but has shape %s" % (P.shape,)
         if index_by_state_action is None:
             index_by_state_action = bidict()
             for i in range(P.shape[0]):
-- 
2.43.0


From d95011474f182bdc9f57b8a23251b5a5950463d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:06 +0000
Subject: [PATCH 38/53] fix: generated certificates stay small where
 frequencies are unbounded

---
 switss/certification/certificates.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index c4f6431..26112eb 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -46,6 +46,15 @@ def find_interior_point(A, b, xgeq0=False, zero_vars = [], solver="cbc"):
     result = lp.solve(solver)
     sres = result.result_vector[-1]
 
+    if xgeq0 and result.status == "optimal" and sres < 0:
+        # points of maximal slack may be arbitrarily large (e.g. on end components),
+        # so take the smallest point that keeps half of the slack.
+        lp.add_constraint([(A.shape[1],1)],"<=",sres/2)
+        lp.set_objective_function([(idx,1) for idx in range(A.shape[1])])
+        small = lp.solve(solver)
+        if small.status == "optimal":
+            result, sres = small, small.result_vector[-1]
+
     return result.result_vector[:-1], (result.status == "optimal" and sres <= 0), sres < 0
 
 def __get_right_constraint_set(reach_form,mode,sense,threshold):
-- 
2.43.0


From aa44d966d6c43d80031e20a8e5fcdc7c789c54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:24 +0000
Subject: [PATCH 39/53] fix: rounding noise in the mass lost to fail does not
 make rows improbable

---
 switss/model/reachability_form.py | 3 ++-
 switss/problem/subsystem.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 20f5aaa..fc45046 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -419,7 +419,8 @@ class ReachabilityForm:
             if p_target > 0:
                 P_compl[idx, target_state] = p_target
             if p_fail > 0:
-                P_compl[idx, fail_state] = p_fail
+                # a sum of probabilities may exceed one by rounding noise
+                P_compl[idx, fail_state] = min(p_fail, 1)
 
         P_compl[C, target_state] = 1
         P_compl[C+1, fail_state] = 1
diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 4f84c4f..5b65277 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -156,7 +156,8 @@ class Subsystem:
                 new_source = new_to_old_states.inv[source]
                 new_row_idx = new_index_by_state_action[(new_source,action)]
                 new_P[new_row_idx, target_state] = p_target 
-                new_P[new_row_idx, fail_state] = to_fail[new_row_idx]
+                # a sum of probabilities may exceed one by rounding noise
+                new_P[new_row_idx, fail_state] = min(to_fail[new_row_idx], 1)
 
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
-- 
2.43.0


From 7bb67044c6bde89407aa976f8b381a08cbddc09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 40/53] fix: exact minimisation returns no states but the
 counted ones

---
 switss/problem/milpexact.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/problem/milpexact.py b/switss/problem/milpexact.py
index 57331f3..5938ee3 100644
--- a/switss/problem/milpexact.py
+++ b/switss/problem/milpexact.py
@@ -54,7 +54,7 @@ class MILPExact(ProblemFormulation):
         }
 
     def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
-        model, _ = construct_MILP(reach_form, 
+        model, indicators = construct_MILP(reach_form, 
                                   threshold, 
                                   mode=mode, 
                                   labels=labels, 
@@ -71,5 +71,9 @@ class MILPExact(ProblemFormulation):
             else:
                 certsize = certificate_size(reach_form, mode)
                 certificate = result.result_vector[:certsize]
+                # entries of unused groups are zero, the solver may leave rounding noise there
+                for indicator, group in indicators.items():
+                    if result.result_vector[indicator] < 0.5:
+                        certificate[list(group)] = 0
                 witness = Subsystem(reach_form, certificate, mode)
                 yield ProblemResult("success", witness, result.value, certificate)
-- 
2.43.0


From bd99c3833b5a569adfa1335ae1651b6bf8367705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 41/53] fix: constraints without variables do not leave
 variables of pulp in the program

---
 switss/solver/milp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 391c530..46534f7 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -156,6 +156,9 @@ class MILP:
         self._assert_expression(lhs)
 
         lhs = pulp.LpAffineExpression(self._expr_to_pulp(lhs))
+        if len(lhs) == 0 and len(self.__variables) > 0:
+            # pulp adds a variable of its own to constraints without variables
+            lhs[self.__variables[0]] = 0
         sense = { "<=" : pulp.LpConstraintLE, 
                   "=" : pulp.LpConstraintEQ, 
                   ">=" : pulp.LpConstraintGE }[sense]
-- 
2.43.0


From ece8938fe11367964d76a20f6e9d670170e5c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 42/53] fix: subsystem renderings accept state styles without a
 label

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 5b65277..830f0b4 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -197,7 +197,7 @@ class Subsystem:
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
-                label = sm["label"]
+                label = sm.get("label", "")
                 cert = self.certificate[stateidx]
                 if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
                 else: label = "{}\nc[{}]={:.5f}".format(label, stateidx, cert)
-- 
2.43.0


From 9a214597de5591b3567651fa489fefbc719f7f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 43/53] fix: subsystem renderings do not change the style
 dictionaries they are given

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 830f0b4..0b9c8b1 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -210,7 +210,7 @@ class Subsystem:
             in_subsystem = not fail_or_target and self.subsystem_mask[sourceidx]
             show_action_weights = (show_weights and self.certform == "max" and in_subsystem)
             
-            am = visualization.action_map(sourceidx, action, sourcelabels)
+            am = dict(visualization.action_map(sourceidx, action, sourcelabels))
             am["node"] = { "label" : "", **(am["node"]) }
             
             if show_action_weights:
-- 
2.43.0


From 297d134864e04954a28db0303cf7159efe2bdf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 44/53] fix: rendering a subsystem does not require its
 reachability form to exist

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 0b9c8b1..113fb96 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -193,7 +193,7 @@ class Subsystem:
             in_subsystem = not is_fail and not is_target and self.subsystem_mask[stateidx]
 
             sm = visualization.state_map(stateidx,labels)
-            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.subsys.system, DTMC)))
+            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.supersys.system, DTMC)))
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
-- 
2.43.0


From c62f36d81bfcb60cd2957c8669de5da36198fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 45/53] fix: renderings of DTMC subsystems show the weight of
 the state's own row

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 113fb96..f440a04 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -198,7 +198,8 @@ class Subsystem:
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
                 label = sm.get("label", "")
-                cert = self.certificate[stateidx]
+                index = stateidx if self.certform == "min" else self.supersys.system.index_by_state_action[(stateidx,0)]
+                cert = self.certificate[index]
                 if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
                 else: label = "{}\nc[{}]={:.5f}".format(label, stateidx, cert)
                 return { **sm, **{ "label" : label } }
-- 
2.43.0


From e66b6b0938265d46e87d0decbe9e04e57612d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 46/53] fix: labels added to a PRISM model start on a line of
 their own

---
 switss/prism/prism.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index 48583b4..c7a4275 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -68,7 +68,9 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
         with open(model_path,"rb") as model_file:
             copyfileobj(model_file,namedtf)
 
-        # write the extra labels to the prism model description
+        # write the extra labels to the prism model description, starting on a line of their own
+        if len(extra_labels) > 0:
+            namedtf.write(b"\n")
         for (label_name, label_expr) in dict(extra_labels).items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
-- 
2.43.0


From 75d62a87c3efd42313b1a43e2950571906b5ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 47/53] fix: MDP.save keeps the order of the rows

---
 switss/model/mdp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 2d58259..e3c1ca3 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -121,7 +121,8 @@ class MDP(AbstractMDP):
 
         with open(tra_path, "w") as tra_file:
             tra_file.write("%d %d %d\n" % (self.N, self.C, self.P.nnz))
-            for (index,dest), p in self.P.items():
+            # rows are numbered in order of appearance when the file is loaded
+            for (index,dest), p in sorted(self.P.items()):
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
                     tra_file.write("%d %d %d %.17g\n" % (source, action, dest, p))
-- 
2.43.0


From c979a90a7798ee1e90e58a598fe17d8d4bcfa07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 48/53] fix: groups with a slightly negative result are fixed
 to zero as well

InverseResultFixedZerosUpdater gives groups without positive result weight
zero.  Where the solver returned -1e-17 instead of 0 they were not fixed and
came back for free in the next iteration.
---
 switss/problem/qsheurparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index 0dde576..6748889 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -161,7 +161,7 @@ class InverseResultFixedZerosUpdater(Updater):
         # result vector will be constrained to equal 0 in the coming LPs
         ret = []
         for group in self.groups:
-            if last_result[group] == 0:
+            if last_result[group] <= 0:
                 constraint = ([(group,1.)], "=", 0)
                 ret.append(constraint)
         return ret
-- 
2.43.0


From aadc46cc11a05e548aee74ea5e2d3184b7861157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 49/53] fix: no exact minimization without upper bounds on the
 certificate

When the bounding program of a reward form is stopped early, the values of
min-certificates were silently bounded by one.
---
 switss/problem/formulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index ee12f0e..829a8df 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -215,8 +215,8 @@ def construct_MILP(rf, threshold, mode, labels=None, relaxed=False, known_upper_
         elif status == "optimal":
             upper_bounds = up_res
 
-    if not relaxed and mode == "max" and upper_bounds is None:
-        assert modeltype_str == "gurobi", "warning: exact minimization of max-properties only possible via gurobi interface at the moment."
+    if not relaxed and upper_bounds is None:
+        assert modeltype_str == "gurobi", "warning: exact minimization without upper bounds only possible via gurobi interface at the moment."
 
         use_real_indicator_constrs = True
 
-- 
2.43.0


From 4a13aedc12abe3199d519e55dd712b81e119f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 50/53] fix: gurobi variables without lower bound are not
 bounded by zero

---
 switss/solver/milp.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 46534f7..6eb93db 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -515,15 +515,13 @@ class GurobiMILP(MILP):
 
             varidx = len(self.__variables)
             varname = "x%d" % varidx
-            if lb is not None:
-                if ub is not None:
-                    var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
-                else:
-                    var = self.__model.addVar(lb=lb, vtype=cat, name=varname)
-            elif ub is not None:
-                var = self.__model.addVar(ub=ub, vtype=cat, name=varname)
+            if lb is None:
+                # gurobi variables are non-negative unless told otherwise
+                lb = -GRB.INFINITY
+            if ub is not None:
+                var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
             else:
-                var = self.__model.addVar(vtype=cat, name=varname)
+                var = self.__model.addVar(lb=lb, vtype=cat, name=varname)
 
             self.__variables.append(var)
 
-- 
2.43.0


From c33b2e4b0ccac69a934920d9b8488be05c274f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 51/53] fix: gurobi constraints and objectives without
 variables

---
 switss/solver/milp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 6eb93db..62ad7de 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -408,7 +408,8 @@ class GurobiMILP(MILP):
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _eval_pulp_expr(self, expression):
-        return sum([ self.__variables[var]*coeff for var, coeff in expression ])
+        # an expression even if there are no summands
+        return sum([ self.__variables[var]*coeff for var, coeff in expression ], gp.LinExpr())
 
     def set_objective_function(self, expression):
         """Sets the objective function of the form
-- 
2.43.0


From d05738ac76ec12325769dfdfd0feda81a46e4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 52/53] fix: gurobi programs from coefficients without an
 objective

---
 switss/solver/milp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 62ad7de..902e09b 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -576,7 +576,7 @@ class GurobiMILP(MILP):
         A = cast_dok_matrix(A).tocsr()
         b = cast_dok_matrix(b)
 
-        opt = cast_dok_matrix(opt)
+        opt = cast_dok_matrix(opt) if opt is not None else None
 
         model = GurobiMILP(objective=objective)
 
@@ -587,7 +587,8 @@ class GurobiMILP(MILP):
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
-- 
2.43.0


From d75d9c7d815cb145b20bfe7ec3f638fff13e612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 53/53] fix: indicator constraints for exact minimization with
 gurobi

---
 switss/problem/formulations.py | 2 +-
 switss/solver/milp.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 829a8df..3ff6ef7 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -136,7 +136,7 @@ def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_
     :rtype: utils.InvertibleDict[int, Set[int]]
     """
     if use_real_indicator_constrs:
-        assert model.isinstance(GurobiMILP)
+        assert isinstance(model, GurobiMILP)
 
     indicator_to_group = {}
 
diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 902e09b..b9b8960 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -485,7 +485,7 @@ class GurobiMILP(MILP):
         """
         name = "c%d" % len( self.__constraints )
 
-        new_constr = self.__model.addConstr((self.__variables[ind_varidx] == 0) << (self.__variables[rhs_varidx] == 0))
+        newconstr = self.__model.addConstr((self.__variables[ind_varidx] == 0) >> (self.__variables[rhs_varidx] == 0), name)
 
         constridx = len(self.__constraints)
         self.__constraints.append(newconstr)
-- 
2.43.0

