From bce2027dd3954237f34a8edb1061b474e9dd0e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:36 +0000
Subject: [PATCH 01/26] fix: do not write pickling state into the shared struct
 declaration

Pickling a struct stored its data in the declaration shared with other structs,
so pickling several structs together lost data.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 90eb856..5ec5e21 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -907,7 +907,7 @@ class CasadiStructured(Structured,CasadiStructureDerivable):
     self.__init__(cs,order=state["order"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["order"] = self.order
     return d
 
@@ -1068,7 +1068,7 @@ class DMStruct(MatrixStruct):
     self.__init__(cs,data=state["master"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["master"] = self.master
     return d
 
-- 
2.43.0


From 5470bb080b17e3db3d662d7e0e03f98fed412918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:39 +0000
Subject: [PATCH 02/26] fix: keep the declared sparsity of symmetric entries
 when pickling

An unpickled struct could not be assigned a symmetric matrix.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 5ec5e21..5341176 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1324,7 +1324,7 @@ class CasadiStructEntry(StructEntry):
       return "symm(" +  self.sparsity.dim() + ")"
 
   def __getstate__(self):
-    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims"])
+    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","originalsparsity","type","repeat","shapestruct","dims"] if hasattr(self,k))
 
 
 def entry(*args,**kwargs):
-- 
2.43.0


From dc7b17813e5d143416d5e1f2198f6571471c7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:42 +0000
Subject: [PATCH 03/26] fix: make save() and struct_load() work on Python 3

The file() builtin does not exist any more.
---
 casadi_extras/structure3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 5341176..82e1a74 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -769,7 +769,8 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   class FlatIndexDispatcher(Dispatcher):
     def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
@@ -1060,7 +1061,8 @@ class DMStruct(MatrixStruct):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   def __setstate__(self,state):
     cs = CasadiStructure.__new__(CasadiStructure)
@@ -1487,4 +1489,5 @@ class DataReferenceSquaredRepeated(DataReference):
 
 def struct_load(filename):
     import pickle
-    return pickle.load(file(filename,"rb"))
+    with open(filename,"rb") as f:
+      return pickle.load(f)
-- 
2.43.0


From b727b7a10d2c6204ae12ab932db3fd244f2341a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:45 +0000
Subject: [PATCH 04/26] fix: read back what was assigned to a mutable MX struct

Whole-entry reads returned the expressions split off at construction.
---
 casadi_extras/structure3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 82e1a74..7529196 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1093,6 +1093,11 @@ class MXStruct(MatrixStruct,VertsplitStructure):
 
     self.buildMap()
 
+  def __setitem__(self,powerIndex,value):
+    # The split expressions are stale once the master changes
+    self.priority_object_map.clear()
+    return MatrixStruct.__setitem__(self,powerIndex,value)
+
   def __MX__(self):
     return self.cat
 
-- 
2.43.0


From 201260d6f5e1c64bb27216df9a0dac207283bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:48 +0000
Subject: [PATCH 05/26] fix: read elements and blocks of symmetric struct
 entries

The lower triangle read as zero and row or column blocks raised an exception.
---
 casadi_extras/structure3.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 7529196..7a763e1 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -594,13 +594,14 @@ class GetterDispatcher(Dispatcher):
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
 
-      i = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry)
+      m = self.struct.map[canonicalIndex]
+      if type=="symm":
+        m = triu2symm(m)
+      i = performExtraIndex(m,extraIndex=extraIndex,entry=entry)
 
       try:
-        if type is None:
+        if type is None or type=="symm":
           return correct_vector_indexing(self.master, i)
-        elif type=="symm":
-          return triu2symm(self.master[i])
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
-- 
2.43.0


From 421ec644a260a4f08cc01f8f3750157ae18f44ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:51 +0000
Subject: [PATCH 06/26] fix: report (row, column) in canonical indices and
 labels with extraMode=2

The pair was swapped, so it addressed another element of the entry.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 7a763e1..c7b9de8 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -813,7 +813,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
       k += sp.nnz()
       it = tuple(i)
       self.map[it] = m
-      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.get_col(),sp.row()))]
+      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.row(),sp.get_col()))]
       for a in canonicalIndexAncestors(it)[1:]:
         if a in hmap:
           hmap[a].append(m)
-- 
2.43.0


From 97cc4a19ff1f14cbf9b046a877db13d8ae688455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:54 +0000
Subject: [PATCH 07/26] fix: index structs by a list of entry names

The entries were bypassed, so repeated entries failed and symmetric entries
read as one triangle.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index c7b9de8..318e0ca 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -408,7 +408,7 @@ class Structure(object):
                    ])
         elif isinstance(p,list):
           return [
-                     self.traverseByPowerIndex(
+                     self.dict[s].traverseByPowerIndex(
                        powerIndex[1:],
                        canonicalIndex=canonicalIndex+(s,),
                        dispatcher=dispatcher,
-- 
2.43.0


From 4d7545c3fe9549c53c38e6464b1fe5cf97ef313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:58 +0000
Subject: [PATCH 08/26] fix: allow row vector entries in nested and repeated
 structs

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 318e0ca..c9b7143 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -821,7 +821,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
           hmap[a] = [m]
     self.size = k
     for k,v in hmap.items():
-      hmap[k] = vertcat(*[i.nz[:] for i in v])
+      hmap[k] = vertcat(*[casadi.vec(i.nz[:]) for i in v])
     self.map.update(hmap)
 
     class StructureGetter:
-- 
2.43.0


From ec2c0dd58009271d4ab0a762482bae3b6e03088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:01 +0000
Subject: [PATCH 09/26] fix: create repeated and squared_repeated views of MX
 matrices

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index c9b7143..4364947 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -970,7 +970,7 @@ class VertsplitStructure:
     if parent is None:  parent = self.master
 
     if isinstance(parent,DataReference):
-      parent = parent.a
+      parent = casadi.vec(parent.a)
 
     ks  = []
     its = []
-- 
2.43.0


From 948a53e10901e5be771c4acf4d984197977ca55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:04 +0000
Subject: [PATCH 10/26] fix: parse matrices with repeated fields and reject
 data of another size

parseMatrix() failed if the struct had any repeated field, and silently
broadcast a matrix with a single row.
---
 casadi_extras/structure3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 4364947..bed5f19 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -515,8 +515,13 @@ class CasadiStructureDerivable:
       corresponding to struct fields.
     '''
 
+    def stack(v):
+      return vertcat(*[stack(e) for e in v]) if isinstance(v, list) else v
+
     data = np.atleast_2d(data)
-    return dict((k, horzcat(*[self(d)[k] for d in data.T])) for k in self.keys())
+    if data.shape[0] != self.size:
+      raise Exception("Expecting data with %d rows. Got %s" % (self.size, data.shape))
+    return dict((k, horzcat(*[stack(self(d)[k]) for d in data.T])) for k in self.keys())
 
 
 
-- 
2.43.0


From 5b341a97b16d251650695cc19cb923b92fd7729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:08 +0000
Subject: [PATCH 11/26] fix: return interval polynomials of a degree lower than
 the basis order

PiecewisePoly.poly() failed e.g. for constant and zero pieces.
---
 casadi_extras/collocation/piecewise_poly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 59aa1d6..475d7a9 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -123,9 +123,9 @@ class PiecewisePoly(object):
         @return list of polynomials p such that
         p[i](t) = self(interval[n] + t)[i, :]
         '''
+        h = self.intervals[n + 1] - self.intervals[n]
         p = self._basis.compose(self._coefficients[n])
-        for p_i in p:
-            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(self._basis.order + 1))
 
-        return p
+        # The order of p_i is less than the order of the basis if its leading coefficients are 0
+        return [np.poly1d(p_i.coef / h ** np.flip(np.arange(p_i.order + 1))) for p_i in p]
 
-- 
2.43.0


From 180b7329afb1ec27d8a762353a62f54d6fed4b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:11 +0000
Subject: [PATCH 12/26] fix: interpolate with continuity 'left'

The column index was off by one and out of range on the last interval, and the
right piece was used at interval bounds.
---
 casadi_extras/collocation/collocation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index ed83c5c..eff7df1 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -234,8 +234,12 @@ class _PdqInterpolator(object):
         l = []
         
         for ti in np.atleast_1d(t):
-            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, 'right') - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
-            l.append(np.dot(x[:, groups[i]], self._basis[i].interpolationMatrix(ti).T))
+            side = 'left' if continuity == 'left' else 'right'
+            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, side) - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
+
+            # The columns of x start from the second collocation point if the first one is omitted
+            cols = groups[i] - 1 if continuity == 'left' else groups[i]
+            l.append(np.dot(x[:, cols], self._basis[i].interpolationMatrix(ti).T))
 
         return np.hstack(l)
 
-- 
2.43.0


From 39586eaaeaa11400007ca955f4104dae340720e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:15 +0000
Subject: [PATCH 13/26] fix: differentiate and integrate on multiple Legendre
 intervals

The differentiation matrices were built for the last Gauss point of an interval,
but the values are given at the first point of the next interval instead.
---
 casadi_extras/collocation/collocation.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index eff7df1..44d65bc 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -51,21 +51,15 @@ class Pdq(object):
         # Make collocation points vector and differential matrices list
         collocation_points = []
         collocation_groups = []
-        basis = []
         k = 0
 
         for i in range(N):
             t_i = collocationPoints(poly_order, polynomial_type) * (t[i + 1] - t[i]) + t[i]
-            basis_i = PolynomialBasis(t_i)
-            D_i = basis_i.D
-            
-            assert D_i.shape[0] == poly_order + 1 and D_i.shape[1] == poly_order + 1
             assert t_i.shape == (poly_order + 1,)
 
             # Ensure that the points are from left to right.
             assert np.all(np.diff(t_i) > 0)
 
-            basis.append(basis_i)
             collocation_points.append(t_i[: -1])
             collocation_groups.append(np.arange(k, k + poly_order + 1))
             k += poly_order
@@ -77,6 +71,9 @@ class Pdq(object):
         # Stack collocation points in one vector
         collocation_points = np.hstack(collocation_points)
 
+        # The last point of an interval is the first point of the next one
+        basis = [PolynomialBasis(collocation_points[g]) for g in collocation_groups]
+
         self._basis = basis
         self._collocationPoints = collocation_points
 
-- 
2.43.0


From 8222dad86c2a2693011d3c8b701a91931bff024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:18 +0000
Subject: [PATCH 14/26] fix: accept positional arguments in
 CollocationIntegrator.integrate()

---
 casadi_extras/collocation/collocation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index 44d65bc..ac7f5a7 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -560,6 +560,9 @@ class CollocationIntegrator(cs.Function):
 
         # Call the cs.Function
         out = self.__call__(*args, **kwargs)
+        if not isinstance(out, dict):
+            # Called with positional arguments
+            out = dict(zip(self.name_out(), out))
 
         # Add output trajectory
         out['x_traj'] = self._scheme.piecewisePolyX(out['x'], out['K'])
-- 
2.43.0


From 4f3090ec201439c8553f34efbd68fbae28c41ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:22 +0000
Subject: [PATCH 15/26] fix: keep the equations when connecting DAE models in
 parallel

parallel() dropped ode and alg, so the result could not be integrated.
---
 casadi_extras/dae_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 2f73175..cdf3e84 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -290,4 +290,4 @@ def parallel(models):
     for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad']: # TODO: what do we do with t?
         d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=getattr(m, attr)) for i, m in enumerate(models)])
 
-    return Dae(**d)
\ No newline at end of file
+    return SemiExplicitDae(**d)
\ No newline at end of file
-- 
2.43.0


From 78223effc3da7b1f67f49c523a3c0bff6fb41381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:25 +0000
Subject: [PATCH 16/26] fix: reject semi-explicit DAEs with algebraic states
 but no equations for them

---
 casadi_extras/dae_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index cdf3e84..65aec99 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -206,12 +206,12 @@ class SemiExplicitDae(Dae):
 
             if not alg.is_column():
                 raise ValueError('alg must be a column vector')
-
-            if self.z.numel() != alg.numel():
-                raise ValueError('z and alg must have the same number of elements')
         else:
             alg = cs.MX.sym('alg', 0)
 
+        if self.z.numel() != alg.numel():
+            raise ValueError('z and alg must have the same number of elements')
+
         self._ode = ode
         self._alg = alg
 
-- 
2.43.0


From 5dfd5be7ecab556bc51c912872f3f82968989bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:29 +0000
Subject: [PATCH 17/26] fix: stack inequalities without nominal values

---
 casadi_extras/inequality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index d246ca0..fd9fb58 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -71,11 +71,11 @@ def vertcat(ineq):
         expr = struct_MX([entry(k, expr=v.expr) for k, v in ineq.items()])
         lb = expr(dict((k, v.lb) for k, v in ineq.items()))
         ub = expr(dict((k, v.ub) for k, v in ineq.items()))
-        nominal = expr(dict((k, v.nominal) for k, v in ineq.items()))
+        nominal = None if any(v.nominal is None for v in ineq.values()) else expr(dict((k, v.nominal) for k, v in ineq.items()))
     else:
         expr=cs.vertcat(*[a.expr for a in ineq])
         lb=cs.vertcat(*[a.lb for a in ineq])
         ub=cs.vertcat(*[a.ub for a in ineq])
-        nominal=cs.vertcat(*[a.nominal for a in ineq])
+        nominal=None if any(a.nominal is None for a in ineq) else cs.vertcat(*[a.nominal for a in ineq])
 
     return Inequality(expr=expr, lb=lb, ub=ub, nominal=nominal)
\ No newline at end of file
-- 
2.43.0


From 44b546196f80127f9783008c74543728c6c92c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:00 +0000
Subject: [PATCH 18/26] fix: integrate DAEs which have both parameters and
 quadratures

The quadrature outputs depended on the parameter symbol of the collocation
scheme, so the integrator could not be created.
---
 casadi_extras/collocation/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index ac7f5a7..43808d2 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -541,7 +541,7 @@ class CollocationIntegrator(cs.Function):
         sol_K = sol['K']
         sol_Z = sol['Z']
         [sol_q, sol_Q, sol_X] = cs.substitute([scheme.q, scheme.Q, scheme.X], 
-            [scheme.x, scheme.K, scheme.Z], [sol_x, sol_K, sol_Z])
+            [scheme.x, scheme.K, scheme.Z, scheme.p], [sol_x, sol_K, sol_Z, dae.p])
 
         # TODO: return correct value for zf!
         # TODO: return only x instead of x and xf?
-- 
2.43.0


From 57f699b82b9840d2698f5bd2b9f0551f5dc8cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:09 +0000
Subject: [PATCH 19/26] fix: avoid integer overflow with integer interpolation
 nodes

Products of differences and powers of integer nodes overflowed silently, which
gave wrong differentiation and interpolation matrices.
---
 casadi_extras/collocation/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index 4ce2325..d601065 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -44,7 +44,7 @@ class PolynomialBasis(object):
         @param tau roots of the polynomials
         '''
 
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(np.asarray(tau, dtype=float))  # integer products below could overflow
         assert tau.ndim == 1
         assert len(tau) > 0
 
@@ -149,7 +149,7 @@ def polynomialInterpolator(x):
 
     assert x.ndim == 1
     N = x.size - 1
-    n = np.atleast_2d(np.arange(N + 1)).T
+    n = np.atleast_2d(np.arange(N + 1, dtype=float)).T
     X = x ** n
 
     return lambda u, xx: np.dot(u, np.linalg.solve(X, xx ** n))
-- 
2.43.0


From dc7dc5addbee3201f5514204fae5cf048dba36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:51 +0000
Subject: [PATCH 20/26] fix: return a finite interpolation matrix extremely
 close to a node

The result was NaN if the distance to a node was so small that its reciprocal
overflowed.
---
 casadi_extras/collocation/polynomial.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index d601065..cb0300f 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -107,8 +107,11 @@ class PolynomialBasis(object):
         
         r = []
         for xi in t:
-            # Check if xi is in tau
-            ind = xi == self.tau
+            with np.errstate(divide='ignore', over='ignore'):
+                w = self._lam / (xi - self.tau)
+
+            # Check if xi is in tau, or so close to it that the weight overflows
+            ind = np.isinf(w)
 
             if np.any(ind):
                 # At a node
@@ -116,7 +119,7 @@ class PolynomialBasis(object):
                 y = ind.astype(float)
             else:
                 # Between nodes
-                y = (self._lam / (xi - self.tau)) / np.sum(self._lam / (xi - self.tau))
+                y = w / np.sum(w)
 
             r.append(y)
 
-- 
2.43.0


From f56ea56cda7deee852b328b0fac1531432f2d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:18 +0000
Subject: [PATCH 21/26] fix: reject implicit DAEs whose state derivative is not
 symbolic

All other variables were checked already.
---
 casadi_extras/dae_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 65aec99..2787da4 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -251,6 +251,9 @@ class ImplicitDae(Dae):
         if not xdot.is_column():
             raise ValueError('xdot must be a column vector')
 
+        if not xdot.is_valid_input():
+            raise ValueError('xdot must be a valid input (purely symbolic)')
+
         if self.x.numel() != xdot.numel():
             raise ValueError('x and xdot must have the same number of elements')
 
-- 
2.43.0


From 00dc3002b69b22cad10c3f153fe7c06a1f653afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:42 +0000
Subject: [PATCH 22/26] fix: write elements of symmetric struct entries by a
 single index

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index bed5f19..c7a6734 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -688,7 +688,7 @@ def performExtraIndex(i,extraIndex=None,entry=None,flip=False):
       if len(extraIndex)==1:
         a = extraIndex[0]
         a = delegation(a,entry,0)
-        return i.__getitem__(a)
+        return (i.T if flip else i).__getitem__(a)
       else:
         a,b = extraIndex
         a = delegation(a,entry,0)
-- 
2.43.0


From a868abdb26a140e8c4b1729df6a2baae1d6dd34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:03 +0000
Subject: [PATCH 23/26] fix: fill product views of a single-element struct from
 a scalar

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index c7a6734..9f7cd7c 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -558,7 +558,7 @@ class CasadiStructureDerivable:
   def product(self,otherstruct,arg=0):
     (a,mtype) = self.argtype(arg)
 
-    if a.shape[0] == 1 and a.shape[1] == 1 and self.size!=1:
+    if a.shape[0] == 1 and a.shape[1] == 1 and (self.size!=1 or otherstruct.size!=1):
        a = DM.ones(self.size,otherstruct.size)*a
     if not(a.shape[1]==otherstruct.size and a.shape[0]==self.size):
        raise Exception("Expecting DM of shape (%s,%s). Got %s" % (self.size,otherstruct.size,a.dim()))
-- 
2.43.0


From 6f792ee776bd49fd0e279204761ef290ff4e5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:59 +0000
Subject: [PATCH 24/26] fix: cast SX structs to a struct without losing their
 symbols

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 9f7cd7c..38b97e2 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -449,7 +449,7 @@ class CasadiStructureDerivable:
     if isinstance(arg,DM):
       a = arg
       mtype = DM
-    elif not isinstance(arg,MX) and not isinstance(arg,SX):
+    elif not isinstance(arg,MX) and not isinstance(arg,SX) and not hasattr(arg,"__SX__"):
       try:
         a = DM(arg)
         mtype = DM
-- 
2.43.0


From fb502d657f9570446e3345546bb33160d28227cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:37 +0000
Subject: [PATCH 25/26] fix: keep every dimension of an expression list that
 has no elements

An entry given as a nested list without any expressions, such as [[], []],
was read back as [] because only one dimension of it was kept.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 38b97e2..a551c5c 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1303,7 +1303,7 @@ class CasadiStructEntry(StructEntry):
       p,r = getPrimitive(self.expr)
 
       if p is None:
-        self.repeat = [0]
+        self.repeat = r
         self.sparsity = Sparsity.dense(0,0)
       else:
         self.repeat = r
-- 
2.43.0


From f5b534dd788f0c51ebc3dff789c9ae4a3ea363d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:18:04 +0000
Subject: [PATCH 26/26] fix: reject out-of-range repeat indices of entries that
 hold no elements

---
 casadi_extras/structure3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index a551c5c..629cf71 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -90,6 +90,8 @@ def canonicalIndexAncestors(ind):
   return [ind] + canonicalIndexAncestors(ind[:-(list(map(is_string,ind[::-1])).index(True)+1)])
 
 def canonical(ind,s):
+  if not(-s <= ind < s):
+    raise Exception("Index %d is out of range for a list of length %d." % (ind,s))
   if ind < 0:
     return ind + s
   else:
-- 
2.43.0

