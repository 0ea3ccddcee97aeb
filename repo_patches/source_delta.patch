From 8ee5255b5a6b75dbd70a27dafa4ffb594b2641c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:31 +0000
Subject: [PATCH 001/146] fix: read a complex pscale of unit offset as a log
 offset

---
 probayes/pscales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a31b873..be048a6 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -26,6 +26,8 @@ def eval_pscale(pscale=None):
   """
   if pscale is None:
     return 1.
+  if iscomplex(pscale):
+    return pscale
   if pscale == 1:
     return 1.
   if pscale in ['log', 'ln', 0]:
@@ -36,8 +38,6 @@ def eval_pscale(pscale=None):
     if pscale == 0.:
       return COMPLEX_ZERO
     return pscale
-  if iscomplex(pscale):
-    return pscale
   raise ValueError("Cannot evaluate pscale={}".format(pscale))
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 73f389bcd9fcdd190acf7df9e6baac78076fd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:31 +0000
Subject: [PATCH 002/146] fix: honour a zero-valued (log) pscale given to
 Prob.set_prob

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 371f837..1f3f980 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -133,7 +133,7 @@ class Prob (Expression, SympyProb):
     pscale is used.
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
-    self.pscale = pscale or self._pscale
+    self.pscale = self._pscale if pscale is None else pscale
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
-- 
2.43.0


From e0f310071464bff66473a97eb4348517176e8c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 003/146] fix: renumber axes by position rather than by key
 order in PD.marginalise

---
 probayes/pd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5121387..6e8bcdb 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -145,18 +145,16 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
-    sum_axes = set()
+    sum_axes = set([self._dims[key] for key in keys])
     for i, key in enumerate(self._keylist):
       if key in keys:
         assert not self._aresingleton[i], \
             "Cannot marginalise along scalar for key {}".format(key)
-        sum_axes.add(self._dims[key])
         marg.pop(key)
-        dim_delta += 1
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          dims.update({key: dim - sum([axis < dim for axis in sum_axes])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     prob = rescale(self._prob, self._pscale, 1.)
-- 
2.43.0


From def702d7ef72343d14950a359682aba8e2c4ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 004/146] fix: marginalise log probabilities without underflow

---
 probayes/pd.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 6e8bcdb..2b95f0a 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -157,9 +157,16 @@ class PD (Distribution):
           dims.update({key: dim - sum([axis < dim for axis in sum_axes])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
-    prob = rescale(self._prob, self._pscale, 1.)
-    sum_prob = np.sum(prob, axis=tuple(sum_axes), keepdims=False)
-    prob = rescale(sum_prob, 1., self._pscale)
+    prob, axes = self._prob, tuple(sum_axes)
+    if not iscomplex(self._pscale):
+      prob = rescale(np.sum(rescale(prob, self._pscale, 1.), axis=axes), 
+                     1., self._pscale)
+
+    # Offset log probabilities by their maxima to avoid underflow
+    else:
+      offs = np.max(prob, axis=axes, keepdims=True)
+      prob = rescale(np.sum(rescale(prob - offs, 0.j, 1.), axis=axes), 1., 0.j)
+      prob = prob + np.squeeze(offs, axis=axes)
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 792b2f15c61895eecf8f5da84229080bc72eab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 005/146] fix: represent the product of log scales by its
 offset and not the log of it

---
 probayes/pscales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index be048a6..9ba49a2 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -151,9 +151,9 @@ def prod_pscale(pscales, use_logp=None):
     if abs(rtype) < NEARLY_POSITIVE_ZERO:
       return COMPLEX_ZERO
     elif rtype > 0:
-      return complex(np.log(rtype), 0.)
+      return complex(rtype, 0.)
     else:
-      return complex(np.log(-rtype), np.pi)
+      return complex(-rtype, np.pi)
   return rtype
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 9ffa286d1ba829d09b7cd5b019f17956625c64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 006/146] fix: rescale products to the requested scale in
 prod_rule

---
 probayes/pscales.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 9ba49a2..c68d458 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -210,8 +210,7 @@ def prod_rule(*args, **kwds):
       if p_log:
         probs[i] = exp_logp(probs[i])
   prob = _apply_prod(probs)
-  if use_logp != iscomplex(pscale):
-    prob = rescale(prob, ppscale, pscales)
+  prob = rescale(prob, ppscale, pscale)
 
   return prob, pscale
 
-- 
2.43.0


From 4e7d8da1422679e3f9949b9a1e65fa62a8ab8e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 007/146] fix: honour a zero-valued (log) output pscale in
 div_prob

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index c68d458..c14353b 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -228,7 +228,7 @@ def div_prob(dividend, divisor, *args, pscale=None):
     assert len(args) == 2, "Both pscales must be specified if at all"
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
-    pscale = pscale or pscales[0]
+    pscale = pscales[0] if pscale is None else pscale
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From 2a76abef394651f667806ad936120b385ee29143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 008/146] fix: honour a zero-valued (log) output pscale in
 products

---
 probayes/pd_utils.py | 5 +++--
 probayes/rf_utils.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 0106cd1..b851e5d 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -7,7 +7,7 @@ import functools
 import numpy as np
 import h5py
 from probayes.vtypes import isscalar, issingleton, isunitsetint
-from probayes.pscales import prod_pscale, prod_rule, iscomplex
+from probayes.pscales import eval_pscale, prod_pscale, prod_rule, iscomplex
 
 #-------------------------------------------------------------------------------
 def str2key(string):
@@ -95,7 +95,8 @@ def product(*args, **kwds):
     return None
   kwds = dict(kwds)
   pscales = [arg.pscale for arg in args]
-  pscale = kwds.get('pscale', None) or prod_pscale(pscales)
+  pscale = kwds.get('pscale', None)
+  pscale = prod_pscale(pscales) if pscale is None else eval_pscale(pscale)
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
                     np.all(pscale == np.array(pscales)) and \
diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 484e4eb..1737a1d 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -13,7 +13,7 @@ def rv_prod_rule(*args, rvs, pscale=None):
   """
   values = args[0]
   pscales = [rv.pscale for rv in rvs]
-  pscale = pscale or prod_pscale(pscales)
+  pscale = prod_pscale(pscales) if pscale is None else pscale
   use_logs = iscomplex(pscale)
   probs = [rv.eval_prob(values[rv.name]) for rv in rvs]
   prob, pscale = prod_rule(*tuple(probs),
-- 
2.43.0


From c0a86d9a07d3877ac31c8333433c5f3a069d9033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 009/146] fix: align divisor axes with those of the dividend in
 PD division

---
 probayes/pd.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 2b95f0a..3a775a1 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -599,12 +599,9 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict(self._cond)
-    re_shape = np.ones(self._ndim, dtype=int)
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key:marg.pop(key)})
-        if not self._aresingleton[i] and not divs:
-          re_shape[self.dims[key]] = other[key].size
       else:
         vals.update({key:self[key]})
 
@@ -615,7 +612,15 @@ class PD (Distribution):
 
     # Evaluate probabilities
     name = margcond_str(marg, cond)
-    divp = other.prob if divs else other.prob.reshape(re_shape)
+    divp = other.prob
+    if not divs: # Align divisor axes (inclusive of conditionals) with dividend
+      axes = {dim: self._dims[key] for key, dim in other.dims.items() \
+                                   if dim is not None}
+      order = sorted(axes, key=axes.get)
+      re_shape = np.ones(self._ndim, dtype=int)
+      for dim in order:
+        re_shape[axes[dim]] = other.shape[dim]
+      divp = np.transpose(divp, order).reshape(re_shape)
     prob = div_prob(self._prob, divp, self._pscale, other.pscale)
     return PD(name, vals, dims=self._dims, prob=prob, pscale=self._pscale)
 
-- 
2.43.0


From ebabf19a6cd4c1f8ad507b6871d24de490e54c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:42 +0000
Subject: [PATCH 010/146] fix: assign product axes to every variable sharing a
 dimension

---
 probayes/pd_utils.py | 45 +++++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index b851e5d..a4e943e 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -251,31 +251,21 @@ def product(*args, **kwds):
             assert isunitsetint(val[key]), "Mismatch in variables {} vs {}".\
                 format(prod_vals, val)
             prod_vals.update({key: {list(prod_vals[key])[0] + list(val[key])[0]}})
-  prod_newdims = np.array(np.logical_not(prod_aresingleton))
-  dims_shared = False
-  for arg in args:
-    argdims = [dim for dim in arg.dims.values() if dim is not None]
-    if len(argdims) != len(set(argdims)):
-      dims_shared = True
 
   # Shared dimensions limit product dimensionality
-  if dims_shared:
-    seen_keys = set()
-    for i, key in enumerate(prod_keys):
-      if prod_newdims[i] and key not in seen_keys:
-        for arg in args:
-          if key in arg.dims:
-            dim = arg.dims[key]
-            seen_keys.add(key)
-            for argkey, argdim in arg.dims.items():
-              seen_keys.add(argkey)
-              if argkey != key and argdim is not None:
-                if dim == argdim:
-                  index = prod_keys.index(argkey)
-                  prod_newdims[index] = False
-
-  prod_cdims = np.cumsum(prod_newdims)
-  prod_ndims = prod_cdims[-1]
+  prod_dims = collections.OrderedDict()
+  prod_ndims = 0
+  for i, key in enumerate(prod_keys):
+    if prod_aresingleton[i]:
+      continue
+    prod_dims.update({key: prod_ndims})
+    for arg in args:
+      dim = arg.dims[key] if key in arg.dims else None
+      for argkey, argdim in arg.dims.items():
+        if dim is not None and dim == argdim and argkey in prod_dims:
+          prod_dims[key] = min(prod_dims[key], prod_dims[argkey])
+    if prod_dims[key] == prod_ndims:
+      prod_ndims += 1
 
   # Fast-track scalar products
   if maybe_fasttrack and prod_ndims == 0:
@@ -285,16 +275,11 @@ def product(*args, **kwds):
   # Reshape values - they require no axes swapping
   ones_ndims = np.ones(prod_ndims, dtype=int)
   prod_shape = np.ones(prod_ndims, dtype=int)
-  scalarset = set()
-  prod_dims = collections.OrderedDict()
   for i, key in enumerate(prod_keys):
-    if prod_aresingleton[i]:
-      scalarset.add(key)
-    else:
+    if not prod_aresingleton[i]:
       values = prod_vals[key]
       re_shape = np.copy(ones_ndims)
-      dim = prod_cdims[i]-1
-      prod_dims.update({key: dim})
+      dim = prod_dims[key]
       re_shape[dim] = values.size
       prod_shape[dim] = values.size
       prod_vals.update({key: values.reshape(re_shape)})
-- 
2.43.0


From 959ea206ed1f759277dbd69a29d8bfefc9d2fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 011/146] fix: order the axes of conditionalised distributions
 for any layout

---
 probayes/pd.py | 44 ++++++++++++--------------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 3a775a1..d470949 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -229,46 +229,26 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     normalise = False
-    delta = 0
     marg_scalars = set()
+
+    # Conditionalised dimensions follow all remaining dimensions
+    cond_dims = set([self._dims[key] for key in keys])
+    all_dims = set([dim for dim in self._dims.values() if dim is not None])
+    old_order = sorted(all_dims, key=lambda dim: (dim in cond_dims, dim))
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key: marg.pop(key)})
       if self._aresingleton[i]:
         dims.update({key: None})
-        if key in keys:
-          normalise = True
-      elif key in self._marg.keys():
-        if self._aresingleton[i]:
+        if key in self._marg.keys():
           marg_scalars.add(key)
         if key in keys:
-          delta += 1 # Don't add to dim just yet
-        else:
-          dim = self._dims[key]
-          dims.update({key: dim})
-      else:
-        dim = self.dims[key] - delta
-        dims.update({key: dim})
-
-    # Reduce remaining marginals to lowest dimension
-    dim_val = [val for val in dims.values() if val is not None]
-    dim_max = 0
-    if len(dim_val):
-      dim_min = min(dim_val)
-      for key in dims.keys():
-        if dims[key] is not None:
-          dim = dims[key]-dim_min
-          dims.update({key: dim})
-          dim_max = max(dim_max, dim)
-    dim_min = self.ndim
-    for key in keys:
-      dim = self.dims[key]
-      if dim is not None:
-        dim_min = min(dim_min, dim)
-    for key in keys:
-      dim = self._dims[key]
-      if dim is not None:
-        dims.update({key: dim-dim_min+dim_max+1})
+          normalise = True
+      elif key not in keys:
+        dims.update({key: old_order.index(self._dims[key])})
+    for i, key in enumerate(self._keylist):
+      if key in keys and not self._aresingleton[i]:
+        dims.update({key: old_order.index(self._dims[key])})
     if normalise:
       assert marg_scalars.issubset(set(keys)), \
         "If conditionalising for key {}".format(key) + "," + \
-- 
2.43.0


From a5680d99cee1db0635f465cd1d111dc2bc437538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 012/146] fix: slice every variable on a matched axis and
 renumber axes by position in PD calls

---
 probayes/pd.py | 76 ++++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 40 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index d470949..ec33d90 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -497,52 +497,48 @@ class PD (Distribution):
     keys = values.keys()
     keyset = set(values.keys())
     assert len(keyset.union(self._keyset)) == len(self._keyset),\
-        "Unrecognised key among values keys: {}".format(keys())
+        "Unrecognised key among values keys: {}".format(keys)
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     dims = collections.OrderedDict(self._dims)
     vals = collections.OrderedDict(self)
-    slices = [slice(None) for _ in range(self.ndim)]
-    dim_delta = 0
+
+    # Match values along each dimension, which may be shared by many keys
+    matches = {}
     for i, key in enumerate(self._keylist):
-      check_dims = False
-      if not self._aresingleton[i]:
-        dim = self.dims[key]
-        if key in keyset:
-          assert np.isscalar(values[key]), \
-              "Values must contain scalars but found {} for {}".\
-              format(values[key], key)
-          match = np.ravel(self[key]) == values[key]
-          n_matches = match.sum()
-          post_eq = '{}'.format(values[key])
-          if n_matches == 0:
-            slices[dim] = slice(0, 0)
-            vals[key] = np.array([])
-          elif n_matches == 1 and not keepdims:
-            dim_delta += 1
-            slices[dim] = int(np.nonzero(match)[0])
-            vals[key] = values[key]
-            dims[key] = None
-          else:
-            post_eq = '[]'
-            slices[dim] = np.nonzero(match)[0]
-            vals[key] = self[key][slices[dim]]
-            check_dims = True
-          update_keys = [key]
-          if check_dims:
-            for k, v in self.items():
-              if dim == self._dims[k] and k not in keyset:
-                vals[k] = self[k][slices[dim]]
-                update_keys.append(k)
-          for update_key in update_keys:
-            if key in marg.keys():
-              marg[key] = "{}={}".format(key, post_eq)
-            elif key in cond.keys():
-              cond[key] = "{}={}".format(key, post_eq)
-        elif dim_delta:
-          dims[key] = dims[key] - dim_delta
+      if key in keyset and not self._aresingleton[i]:
+        assert np.isscalar(values[key]), \
+            "Values must contain scalars but found {} for {}".\
+            format(values[key], key)
+        dim = self._dims[key]
+        match = np.ravel(self[key]) == values[key]
+        matches[dim] = np.logical_and(match, matches.get(dim, True))
+    slices = {dim: np.nonzero(match)[0] for dim, match in matches.items()}
+    if not keepdims: # Unique matches are dimensionless
+      slices = {dim: int(index[0]) if len(index) == 1 else index
+                for dim, index in slices.items()}
+    dropped = [dim for dim, index in slices.items() if isscalar(index)]
+
+    # Slice values, renumbering dimensions, then slice probabilities
+    for key in self._keylist:
+      dim = self._dims[key]
+      if dim is None:
+        continue
+      if dim in slices:
+        vals[key] = np.ravel(self[key])[slices[dim]]
+        if dim in dropped and key in keyset:
+          vals[key] = values[key]
+        post_eq = '{}'.format(vals[key]) if dim in dropped else '[]'
+        if key in marg.keys():
+          marg[key] = "{}={}".format(key, post_eq)
+        elif key in cond.keys():
+          cond[key] = "{}={}".format(key, post_eq)
+      dims[key] = None if dim in dropped else \
+                  dim - sum([_dim < dim for _dim in dropped])
     name = margcond_str(marg, cond)
-    prob = self._prob[tuple(slices)]
+    prob = self._prob
+    for dim in sorted(slices, reverse=True):
+      prob = prob[tuple([slice(None)] * dim + [slices[dim]])]
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From f3618734f2176f31d18899b25ac83523426aaf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 013/146] fix: conditionalise log probabilities without
 underflow

---
 probayes/pd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index ec33d90..5d135df 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -8,7 +8,7 @@ from probayes.pd_utils import str_margcond, margcond_str, product, summate, \
                               rekey_dict, ismonotonic
 from probayes.vtypes import isscalar
 from probayes.pscales import eval_pscale, rescale, iscomplex
-from probayes.pscales import div_prob
+from probayes.pscales import div_prob, NEARLY_NEGATIVE_INF
 from probayes.distribution import Distribution
 
 #-------------------------------------------------------------------------------
@@ -268,8 +268,10 @@ class PD (Distribution):
         if key not in keys and key in self._marg.keys():
           sum_axes.add(dims[key])
     prob = np.moveaxis(self._prob, old_dims, new_dims)
-    if normalise and iscomplex(self._pscale): 
-      prob = prob - prob.max()
+    if iscomplex(self._pscale) and (normalise or len(sum_axes)):
+      axes = tuple(sum_axes) if len(sum_axes) else None
+      offs = np.max(prob, axis=axes, keepdims=True) # avoids underflow
+      prob = prob - np.where(offs > NEARLY_NEGATIVE_INF, offs, 0.)
     prob = rescale(prob, self._pscale, 1.)
     if normalise:
       prob = div_prob(prob, np.sum(prob))
-- 
2.43.0


From 0c6f50d846f4fff420fe33f8a75c019d860da7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 014/146] fix: divide log probabilities without underflow

---
 probayes/pscales.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index c14353b..1466be7 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -229,6 +229,16 @@ def div_prob(dividend, divisor, *args, pscale=None):
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
     pscale = pscales[0] if pscale is None else pscale
+
+  # Subtract log probabilities to avoid underflow
+  if iscomplex(pscales[0]) and iscomplex(pscales[1]):
+    nonzero = np.greater(divisor, NEARLY_NEGATIVE_INF)
+    quotient = rescale(dividend, pscales[0], 0.j) - np.where(nonzero,
+                   rescale(divisor, pscales[1], 0.j), np.log(NEARLY_POSITIVE_ZERO))
+    quotient = np.where(np.greater(dividend, NEARLY_NEGATIVE_INF), 
+                        quotient, NEARLY_NEGATIVE_INF)[()]
+    return rescale(quotient, 0.j, pscale)
+
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From 1516932b688cecafedc27960a3163f57ec24c3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 015/146] fix: match the conditional variables of products by
 key and by value

---
 probayes/pd_utils.py | 46 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index a4e943e..aa5ac30 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -195,32 +195,32 @@ def product(*args, **kwds):
   prod_marg = [name for dist_marg_names in marg_names \
                           for name in dist_marg_names]
   prod_marg_name = ','.join(prod_marg)
-  flat_cond_names = [name for dist_cond_names in cond_names \
-                          for name in dist_cond_names]
-  cond2marg = [cond_name for cond_name in flat_cond_names \
-                         if cond_name in prod_marg]
-  prod_cond = [cond_name for cond_name in flat_cond_names \
-                         if cond_name not in cond2marg]
-  cond2marg_set = set(cond2marg)
-
-  # Check conditionals compatible
-  prod_cond_set = set(prod_cond)
-  cond2marg_dict = {name: None for name in cond2marg}
+  prod_marg_keys = set(str2key(prod_marg))
+  prod_cond = []
+  for name in [name for dist_cond_names in cond_names \
+                    for name in dist_cond_names]:
+    if str2key(name) not in prod_marg_keys.union(str2key(prod_cond)):
+      prod_cond.append(name)
+
+  # Check conditionals compatible and that all shared variables match in values
+  prod_cond_keys = set(str2key(prod_cond))
+  seen_vals = {}
   for i, arg in enumerate(args):
-    cond_set = set(cond_names[i]) - cond2marg_set
+    cond_set = set(arg.cond.keys()) - prod_marg_keys
     if cond_set:
-      assert prod_cond_set == cond_set, \
+      assert prod_cond_keys == cond_set, \
           "Incompatible product conditional {} for conditional set {}: ".format(
-              prod_cond_set, cond_set)
-    for name in cond2marg:
-      if name in arg.keys():
-        values = arg[name]
-        if not isscalar(values):
-          values = np.ravel(values)
-        if cond2marg_dict[name] is None:
-          cond2marg_dict[name] = values
-        elif not np.allclose(cond2marg_dict[name], values):
-          raise ValueError("Mismatch in values for condition {}".format(name))
+              prod_cond_keys, cond_set)
+    for key, values in arg.items():
+      if isunitsetint(values):
+        continue
+      if not isscalar(values):
+        values = np.ravel(values)
+      if key not in seen_vals:
+        seen_vals.update({key: values})
+      elif np.shape(values) != np.shape(seen_vals[key]) or \
+          not np.allclose(seen_vals[key], values):
+        raise ValueError("Mismatch in values for condition {}".format(key))
 
   # Establish product name, values, and dimensions
   prod_keys = str2key(prod_marg + prod_cond)
-- 
2.43.0


From e1169bc0a3fcdafbf07beb604c842a491602e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 016/146] fix: fast-track products only if all operands are on
 the scale requested

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 1466be7..ebaa47b 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -194,7 +194,7 @@ def prod_rule(*args, **kwds):
   if use_logp != iscomplex(ppscale):
     ppscale = complex(np.log(ppscale), 0.) if use_logp else float(np.exp(ppscale))
   elif use_logp == iscomplex(pscale) and ppscale == pscale and \
-      len(set([iscomplex(_pscale) for _pscale in pscales])) == 1:
+      set([iscomplex(_pscale) for _pscale in pscales]) == {use_logp}:
     prob = _apply_prod(list(args))
     return prob, pscale
 
-- 
2.43.0


From ce72b30f4c4e2bfed00f8bf156961835375ee0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 017/146] fix: return whether individual variables are
 singletons in Distribution.singleton

---
 probayes/distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 990968c..37974c3 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -202,10 +202,10 @@ class Distribution (NamedDict):
     if key is None:
       return self._issingleton
     if isinstance(key, str):
-      if key not in self._keys:
+      if key not in self._keylist:
         return None
-      key = self._keys.index(key)
-    return self._issingleton[key]
+      key = self._keylist.index(key)
+    return self._aresingleton[key]
 
 #-------------------------------------------------------------------------------
   def lookup(self, keys, as_dist=False):
-- 
2.43.0


From 5fb3b9e71ccaaae23433ab2eba9780a5e8d0313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 018/146] fix: redimension distributions with shared dimensions
 or unspecified singletons

---
 probayes/distribution.py | 1 +
 probayes/pd.py           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 37974c3..712647e 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -259,6 +259,7 @@ class Distribution (NamedDict):
             "Dimension {} requested for singleton with key {}".\
             format(dims[key], key)
     vals = {key: self[key] for key in dims.keys()}
+    vals.update({key: self[key] for key in self._keylist if key not in vals})
     return Distribution(self._name, vals, dims=dims)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/pd.py b/probayes/pd.py
index 5d135df..a84e7e6 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -296,7 +296,7 @@ class PD (Distribution):
       old_dims = []
       new_dims = []
       for i, key in enumerate(self._keylist):
-        if not self._aresingletons[i]:
+        if not self._aresingleton[i] and self._dims[key] not in old_dims:
           old_dims.append(self._dims[key])
           new_dims.append(dims[key])
       prob = np.moveaxis(prob, old_dims, new_dims)
-- 
2.43.0


From efaf6b605cbecf1c936780f6e5e3bfa6a4b46517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 019/146] fix: detect all duplicate keys in Distribution.rekey

---
 probayes/distribution.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 712647e..bde3dc9 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -272,15 +272,11 @@ class Distribution (NamedDict):
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
     for key in self._keylist:
-      if key not in keymap.keys():
-        vals.update({key: self[key]})
-        dims.update({key: self.dims[key]})
-      else:
-        map_key = keymap[key]
-        assert map_key not in vals, \
-            "Key map results in duplicate for key: {}".format(map_key)
-        vals.update({map_key: self[key]})
-        dims.update({map_key: self.dims[key]})
+      map_key = keymap.get(key, key)
+      assert map_key not in vals, \
+          "Key map results in duplicate for key: {}".format(map_key)
+      vals.update({map_key: self[key]})
+      dims.update({map_key: self.dims[key]})
     return Distribution(self._name, vals, dims=dims)
     
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 1c9d4af44f78c45a9e92c08b42d0ffb0ebcf5a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:53 +0000
Subject: [PATCH 020/146] fix: renumber axes by position rather than by key
 order in PD.prod

---
 probayes/pd.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index a84e7e6..eb82090 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -328,20 +328,18 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
-    prod_axes = []
+    prod_axes = sorted(set([self._dims[key] for key in keys \
+                            if self._dims[key] is not None]))
     for i, key in enumerate(self._keylist):
       if key in keys:
         assert not self._aresingleton[i], \
             "Cannot apply product along scalar for key {}".format(key)
-        if self._dims[key] not in prod_axes:
-          prod_axes.append(self.dims[key])
-          dim_delta += 1
         marg.update({key: key+"={}"})
         vals.update({key: {self[key].size}})
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          dims.update({key: dim - sum([axis < dim for axis in prod_axes])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     pscale = self._pscale
-- 
2.43.0


From 7ff2aa3986f6de40f9129d184bff7f8c42126ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:53 +0000
Subject: [PATCH 021/146] fix: scale PD.prod by as many factors as are
 multiplied

---
 probayes/pd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index eb82090..776020d 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -347,9 +347,9 @@ class PD (Distribution):
     if pscale_product not in [0., 1.]:
       pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
       if iscomplex(pscale):
-        pscale_product += pscale*pscale_scaling 
+        pscale_product = pscale*pscale_scaling 
       else:
-        pscale_product *= pscale**pscale_scaling 
+        pscale_product = pscale**pscale_scaling 
     prob = np.sum(self.prob, axis=tuple(prod_axes)) if iscomplex(pscale) \
            else np.prod(self.prob, axis=tuple(prod_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale_product)
-- 
2.43.0


From 77d4e42fc04d13fc52079121352de77960bbd495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:53 +0000
Subject: [PATCH 022/146] fix: concatenate distributions along the axis in
 which they differ in summate

---
 probayes/pd_utils.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index aa5ac30..1b2875b 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -369,31 +369,23 @@ def summate(*args):
     return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
   # 2. all identical but in one dimension: concatenate in that dimension
-  # TODO: fix the remaining code of this function below
   sum_vals = collections.OrderedDict(args[0])
-  sum_dims = [None] * (len(args) - 1)
-  for i, arg in enumerate(args):
-    if i == 0:
-      continue
-    for key in marg_keys:
-      if sum_dims[i-1] is not None:
-        continue
-      elif not arg.singleton(key):
-        key_vals = arg[key]
-        if key_vals.size == sum_vals[key].size:
-          if np.allclose(key_vals, sum_vals[key]):
-            continue
-        sum_dims[i-1] = arg.dims[key]
-  assert len(set(sum_dims)) > 1, "Cannot find unique concatenation axis"
-  sum_dim = sum_dims[0]
   sum_dims = args[0].dims
-  key = marg_keys[sum_dim]
-  sum_prob = np.copy(probs[0])
-  for i, val in enumerate(vals):
-    if i == 0:
-      continue
-    sum_vals[key] = np.concatenate([sum_vals[key], val[key]], axis=sum_dim)
-    sum_prob = np.concatenate([sum_prob, probs[i]], axis=sum_dim)
+  concat_dims = set([0]) if args[0].ndim == 1 else set()
+  for arg in args[1:]:
+    for key in sum_keys:
+      assert arg.dims[key] == sum_dims[key], \
+          "Dimensions not identical across distributions for: {}".format(key)
+      if np.size(arg[key]) != np.size(sum_vals[key]) or \
+          np.any(arg[key] != sum_vals[key]):
+        concat_dims.add(sum_dims[key])
+  assert len(concat_dims) == 1 and None not in concat_dims, \
+      "Cannot find unique concatenation axis"
+  sum_dim = list(concat_dims)[0]
+  for key in sum_keys:
+    if sum_dims[key] == sum_dim:
+      sum_vals[key] = np.concatenate([val[key] for val in vals], axis=sum_dim)
+  sum_prob = np.concatenate(probs, axis=sum_dim)
   return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 95eb8bc90d09ddc20fa0a53c289a7bd39e3d7e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:53 +0000
Subject: [PATCH 023/146] fix: evaluate expectations and quantiles of log
 probabilities without underflow

---
 probayes/pd.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 776020d..cad2f65 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -370,7 +370,13 @@ class PD (Distribution):
         if self._dims[key] is not None:
           sum_axes.append(self._dims[key])
         dims[key] = None
-    prob = rescale(self._prob, self._pscale, 1.)
+    prob = self._prob
+    if iscomplex(self._pscale): # Offset by maxima to avoid underflow
+      offs = np.max(prob, axis=tuple(set(sum_axes)) or None, keepdims=True)
+      prob = prob - np.where(offs > NEARLY_NEGATIVE_INF, offs, 0.)
+      prob = rescale(prob, 0.j, 1.)
+    else:
+      prob = rescale(prob, self._pscale, 1.)
     if sum_axes:
       sum_prob = np.sum(prob, axis=tuple(set(sum_axes)), keepdims=False)
     else:
@@ -409,7 +415,14 @@ class PD (Distribution):
           unsorted.add(key)
 
     # Evaluate quantiles from cumulative probability
-    ravprob = rescale(np.ravel(self.prob), self._pscale, 1.)
+    ravprob = np.ravel(self.prob)
+    if iscomplex(self._pscale): # Offset by maximum to avoid underflow
+      offs = np.max(ravprob)
+      ravprob = ravprob - (offs if offs > NEARLY_NEGATIVE_INF else 0.)
+      ravprob = rescale(ravprob, 0.j, 1.)
+    else:
+      ravprob = rescale(ravprob, self._pscale, 1.)
+    ravprob = div_prob(ravprob, np.sum(ravprob))
     cumprob = np.cumsum(ravprob)
     cumprob = div_prob(cumprob, cumprob[-1])
     cum_idx = np.maximum(0, np.digitize(np.array(quants), cumprob)-1).tolist()
-- 
2.43.0


From 3923d9117b36340bb9696b3d5efb5b23b96439c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:16 +0000
Subject: [PATCH 024/146] fix: keep conditional variables when remarginalising
 distributions

---
 probayes/pd.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index cad2f65..59633ba 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -647,7 +647,7 @@ class PD (Distribution):
             "Key {} not present in inputted distribution"
 
     # Evaluate output indices for each space in probability
-    shape = distribution.shape
+    shape = list(distribution.shape)
     indices = [np.empty(_size, dtype=int) for _size in shape]
     for key, dim in dims.items():
       if dim is not None:
@@ -656,9 +656,17 @@ class PD (Distribution):
         indices[dim] = np.maximum(0, np.minimum(len(edges)-1, \
                                      np.digitize(rav_vals, edges)-1))
 
+    # Conditional dimensions are unchanged but follow those of distribution
+    cond_keys = list(self._cond.keys())
+    cond_dims = sorted(set([self._dims[key] for key in cond_keys \
+                            if self._dims[key] is not None]))
+    for dim in cond_dims:
+      shape.append(self._shape[dim])
+      indices.append(np.ravel(np.indices(self._shape)[dim]))
+
     # Iterate through every self.prob value
     rav_prob = np.ravel(rescale(self._prob, self._pscale, 1.))
-    rem_prob = np.zeros(distribution.shape, dtype=float)
+    rem_prob = np.zeros(shape, dtype=float)
     for i in range(self.size):
       rem_idx = tuple([idx[i] for idx in indices])
       rem_prob[rem_idx] += rav_prob[i]
@@ -676,12 +684,13 @@ class PD (Distribution):
           marg_str[-1] = key + "=[]"
     rem_name = ','.join(marg_str)
     if '|' in self._name:
-      rem_name += self._name.split('|')[1]
-    cond_keys = list(self._cond.keys())
+      rem_name += '|' + self._name.split('|')[1]
     if cond_keys:
       for key in cond_keys:
         rem_vals.update({key: self[key]})
-        rem_dims.update({key: self._dims[key]})
+        rem_dims.update({key: None if self._dims[key] is None else \
+                              cond_dims.index(self._dims[key]) + \
+                              len(distribution.shape)})
 
     return PD(rem_name, rem_vals, dims=rem_dims,
               prob=rescale(rem_prob, 1., self._pscale),
-- 
2.43.0


From ce42ad35b5d5ec003247ab9e23d46a1d4bf8e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:51 +0000
Subject: [PATCH 025/146] fix: remarginalise log probabilities without
 underflow

---
 probayes/pd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 59633ba..896bedf 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -665,7 +665,10 @@ class PD (Distribution):
       indices.append(np.ravel(np.indices(self._shape)[dim]))
 
     # Iterate through every self.prob value
-    rav_prob = np.ravel(rescale(self._prob, self._pscale, 1.))
+    use_logp, prob = iscomplex(self._pscale), np.ravel(self._prob)
+    offs = np.max(prob) if use_logp else 0. # avoids underflow
+    offs = offs if offs > NEARLY_NEGATIVE_INF else 0.
+    rav_prob = rescale(prob - offs, 0.j if use_logp else self._pscale, 1.)
     rem_prob = np.zeros(shape, dtype=float)
     for i in range(self.size):
       rem_idx = tuple([idx[i] for idx in indices])
@@ -692,8 +695,8 @@ class PD (Distribution):
                               cond_dims.index(self._dims[key]) + \
                               len(distribution.shape)})
 
-    return PD(rem_name, rem_vals, dims=rem_dims,
-              prob=rescale(rem_prob, 1., self._pscale),
+    prob = rescale(rem_prob, 1., 0.j if use_logp else self._pscale) + offs
+    return PD(rem_name, rem_vals, dims=rem_dims, prob=prob,
               pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 78b3206f89665779e3fed5cddd4cf5d0d7a00c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 026/146] fix: treat a single value as monotonic

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 1b2875b..325b5fb 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -394,7 +394,7 @@ def ismonotonic(vals):
     return True
   vals = np.ravel(vals)
   is_ge = vals[1:] >= vals[:-1]
-  if len(np.unique(is_ge)) == 1:
+  if len(np.unique(is_ge)) <= 1:
     return True
   return False
 
-- 
2.43.0


From 5794c6483823577f7fa9620591a87af636a54ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:57 +0000
Subject: [PATCH 027/146] fix: leave the dimensions of distributions unmodified
 when writing them

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 325b5fb..47ff764 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -456,7 +456,7 @@ def write_serialised(path, serialised, aux_dict={}):
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
         if key == 'attrs':
-          attrs = dist_dict['attrs']
+          attrs = dist_dict['attrs'].copy()
           for k, v in attrs.items():
             if v is None:
               attrs[k] = 'None'
-- 
2.43.0


From 1139125dc9f923ef1e5240dd4c0259fd087022fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:57 +0000
Subject: [PATCH 028/146] fix: refuse to serialise distributions that would
 overwrite one another

---
 probayes/pd_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 47ff764..7177af7 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -415,7 +415,11 @@ def serialise(*args):
   for arg in args:
     if not isinstance(arg, (PD, Distribution)):
       raise TypeError(f"Unrecogised type to serialise: {type(arg)}")
-    serialised.update(arg.serialise())
+    arg_serialised = arg.serialise()
+    for name in arg_serialised:
+      if name in serialised:
+        raise ValueError(f"Cannot serialise distributions of same name: {name}")
+    serialised.update(arg_serialised)
   return serialised
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From a654bdd3c5754089ade6ed6320f86c264690a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:34 +0000
Subject: [PATCH 029/146] fix: align all values with the axes of distributions
 of unspecified dimensions

---
 probayes/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index bde3dc9..5cbfedd 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -139,7 +139,7 @@ class Distribution (NamedDict):
     # Count number of non-singleton dimensions
     self._aresingleton = [issingleton(val) for val in self.values()]
     self._issingleton = np.all(self._aresingleton)
-    self._ndim = 0 
+    self._ndim = self._aresingleton.count(False) if eval_dims else 0 
     for dim in self._dims.values():
       if dim is not None:
         self._ndim = max(self._ndim, dim+1)
-- 
2.43.0


From 78a921cb4e8dbf3eed851e2f59375b5c1b166fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:34 +0000
Subject: [PATCH 030/146] fix: read distributions in the order in which they
 were written

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 7177af7..b78625c 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -455,7 +455,7 @@ def write_serialised(path, serialised, aux_dict={}):
         f"Aux dict subkeys must be str, found {subkey}"
       assert isinstance(subval, np.ndarray), \
         f"Aux dict subvals must be NumPy arrays, found {type(subval)}"
-  with h5py.File(path, 'w', libver='latest') as hdf_write:
+  with h5py.File(path, 'w', libver='latest', track_order=True) as hdf_write:
     for dist_name, dist_dict in serialised.items():
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
-- 
2.43.0


From 7dd8f6265225d77aa753de8c2796f1adb2e543e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 031/146] fix: copy the variable set instead of modifying the
 list given

---
 probayes/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index 9f56198..c500257 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -188,6 +188,7 @@ class Variable (Icon):
           "Unrecognised vset specification: {}".format(vset)
 
     # At this point, vset can only be a list, but may contain tuples
+    vset = list(vset)
     vtype = self._vtype
     for i, value in enumerate(vset):
       if isinstance(value, tuple):
-- 
2.43.0


From 2725014c7261a177688fe4d9dd0294341ad9c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 032/146] fix: accept arrays and scalars as variable sets

---
 probayes/variable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index c500257..407fa1d 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -109,10 +109,10 @@ class Variable (Icon):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-    if vtype or vset:
+    if vtype or vset is not None:
       if vtype:
         self.vtype = vtype
-      if vset:
+      if vset is not None:
         self.vset = vset
     else:
       self.vtype = vtype
@@ -174,8 +174,8 @@ class Variable (Icon):
       vset = DEFAULT_VSETS[self._vtype]
     elif isinstance(vset, (set, range)):
       vset = sorted(vset)
-    elif np.isscalar(self._vset):
-      vset = [self._vset]
+    elif np.isscalar(vset):
+      vset = [vset]
     elif isinstance(vset, tuple):
       assert len(vset) == 2, \
           "Tuple vsets contain pairs of values, not {}".format(vset)
-- 
2.43.0


From c590bac503a839dceb125bb5659a4de1c9657261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 033/146] fix: return the log hypervolume of variables

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 407fa1d..0fcfce6 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -300,7 +300,7 @@ class Variable (Icon):
   @property
   def lhv(self):
     """ Log hypervolume (=log(length)) of the variable """
-    return self._length
+    return self._lhv
 
   def __len__(self):
     """ Length of the variable according to its (transformed) limits """
-- 
2.43.0


From 9cafabeb8b8d505fa9509081ca75bdfed9cd0f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 034/146] fix: do not assume values unique, nor boolean
 variable sets complete

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 0fcfce6..320da7f 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -326,9 +326,9 @@ class Variable (Icon):
 
     # Non-floats do not support transformation
     if self._vtype not in VTYPES[float]:
-      self._inside = lambda x: np.isin(x, self._vset, assume_unique=True)
+      self._inside = lambda x: np.isin(x, self._vset)
       self._ulims = self._vlims
-      self._length = 2 if self._vtype in VTYPES[bool] else len(self._vset)
+      self._length = len(self._vset)
       self._lhv = log_prob(self._length)
       self._nlhv = -self._lhv
       self._isfinite = False
-- 
2.43.0


From 239f1a7fe983f1760b2d5946c0451a6a9c8ed0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 035/146] fix: restore untransformed limits when unsetting a
 transformation

---
 probayes/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index 320da7f..7780d3b 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -477,6 +477,8 @@ class Variable (Icon):
     """
     self._ufun = ufun
     if self._ufun is None:
+      self.__no_ucov = None
+      self._eval_ulims()
       return
     self.__no_ucov = False if 'no_ucov' not in kwds else kwds.pop('no_ucov')
 
-- 
2.43.0


From 005ecf44e10795c55ceb3783d454c2c551266ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 036/146] fix: scale default deltas of any form, and support
 callable and zero deltas

---
 probayes/variable.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 7780d3b..fa294d0 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -609,11 +609,12 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = delta or self._delta
+    scale = delta is None and self._delta_kwds.get('scale', False)
+    delta = self._delta if delta is None else delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta
       delta = delta()
     if isinstance(delta, self._Delta):
@@ -635,7 +636,7 @@ class Variable (Icon):
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-    if delta == self._delta and self._delta_kwds['scale']:
+    if scale:
       assert np.isfinite(self._length), "Cannot scale by infinite length"
       delta *= self._length
     return self._Delta(delta)
@@ -663,9 +664,10 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = delta or self._delta
+    if delta is None:
+      delta = self._delta if self._vtype in VTYPES[bool] else self.eval_delta()
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta(values)
       delta = delta()
     elif self._vtype not in VTYPES[bool]:
-- 
2.43.0


From e25bd686c10616718caa9d3528431a306a499382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 037/146] fix: sample integer deltas inclusive of both extremes

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index fa294d0..79c54d1 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -632,7 +632,7 @@ class Variable (Icon):
       if self._vtype in VTYPES[bool]:
         pass
       elif self._vtype in VTYPES[int]:
-        delta = np.random.randint(-delta, delta)
+        delta = np.random.randint(-delta, delta + 1)
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-- 
2.43.0


From b6ed2f07d6821b0ba35e0080bc48b68b3d1fed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 038/146] fix: exclude open limits when bounding scalar deltas

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 79c54d1..a9fe171 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -720,12 +720,12 @@ class Variable (Icon):
         if not self._inside(vals):
           vals = values
       elif maybe_bounce[0]:
-        if vals < self._vlims[0]:
+        if vals <= self._vlims[0]:
           vals = values
         else:
           vals = np.minimum(self._vlims[1], vals)
       else:
-        if vals > self._vlims[1]:
+        if vals >= self._vlims[1]:
           vals = values
         else:
           vals = np.maximum(self._vlims[0], vals)
-- 
2.43.0


From 8eeb87e4eb58884f75911e59e244cf2df96c8f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 039/146] fix: pass variable types and sets in order in
 variables()

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index a9fe171..c515484 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -793,7 +793,7 @@ class Variable (Icon):
 def variables(names, vtype=None, vset=None, *args, **kwds):
   if isinstance(names, str):
     names = names.split(',')
-  varlist = [Variable(name, vtype, vset, *args, **kwds) for name in names]
+  varlist = [Variable(name, vset, vtype, *args, **kwds) for name in names]
   return tuple(varlist)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 7c8e25dfa9753fc56095ac9a4d8400f473a052c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 040/146] fix: evaluate delta instances given to
 Field.eval_delta()

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index ba2ee06..4fdbac3 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -489,7 +489,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       delta = delta()
     elif isinstance(delta, self._delta_type):
       delta_dict = collections.OrderedDict()
-      variables = self.ret_vars(aslist=True)
+      variables = self._varlist
       for i, key in enumerate(self._keylist):
         delta_dict.update({key: variables[i].eval_delta(delta[i])})
       delta = self._delta_type(**delta_dict)
-- 
2.43.0


From bf6f03599047494da1ec673ff560bb2ede48a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 041/146] fix: accept fields as vertices in Field.subfield()

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 4fdbac3..d847051 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -614,7 +614,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     variables = []
     for vertex in vertices:
       if isinstance(vertex, Field):
-        variables += [vertex.ret_vars(aslist=True)]
+        variables += vertex.varlist
       elif isinstance(vertex, Variable):
         variables += [vertex]
       elif isinstance(vertex, str):
-- 
2.43.0


From 87844af97a3be3b5e7ba396979ff3ba57f846a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 042/146] fix: apply default deltas of fields as they are
 evaluated

---
 probayes/field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index d847051..8539a5a 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -473,7 +473,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       if self._delta is None:
         variables = list(self._varlist)
         if len(variables) == 1 and variables[0]._delta is not None:
-          return variables[0]._delta
+          return self._delta_type(variables[0].eval_delta())
         return None
       elif isinstance(self._delta, Expression):
         delta = self._delta()
@@ -532,12 +532,13 @@ class Field (NX_UNDIRECTED_GRAPH):
 
 #-------------------------------------------------------------------------------
   def apply_delta(self, values, delta=None):
-    delta = delta or self._delta
+    if delta is None:
+      delta = self.eval_delta()
     if delta is None:
       return values
     if not isinstance(delta, self._delta_type):
       variables = self._varlist
-      if len(variables) == 1 and isinstance(delta, variables[0].delta):
+      if len(variables) == 1 and isinstance(delta, variables[0].Delta):
         return variables[0].apply_delta(values, delta)
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
-- 
2.43.0


From 1cd381c080c9b2ccf30d7493eb7bdfa44cf6cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 043/146] fix: defer to variable bounding of deltas where a
 field specifies none

---
 probayes/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 8539a5a..4f33e94 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -542,8 +542,7 @@ class Field (NX_UNDIRECTED_GRAPH):
         return variables[0].apply_delta(values, delta)
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
-    bound = False if 'bound' not in self._delta_kwds \
-           else self._delta_kwds['bound']
+    bound = self._delta_kwds.get('bound', None) # None defers to Variables
     vals = collections.OrderedDict(values)
     keys = delta._fields
     for i, key in enumerate(keys):
-- 
2.43.0


From 891ba7b63e8ef96726db42f99e177c6c5d5685d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 044/146] fix: add collections of variables to existing fields

---
 probayes/field.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 4f33e94..871ebb7 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -114,7 +114,7 @@ class Field (NX_UNDIRECTED_GRAPH):
 
     :param var: a Variable or Field instance, or a list/tuple of Variable instances.
     """
-    variables = []
+    variables = [var]
     if isinstance(var, (Field, dict, set, tuple, list)):
       variables = var
       if isinstance(variables, Field):
@@ -128,13 +128,6 @@ class Field (NX_UNDIRECTED_GRAPH):
         assert var not in list(self.nodes), \
             "Existing variable {} already present in collection".format(var)
       super().add_node(var)
-    else:
-      assert isinstance(var, Variable), \
-          "Input not a variable instance but of type: {}".format(type(var))
-      if self._nvars:
-        assert var not in list(self.nodes), \
-            "Existing variable {} already present in collection".format(var)
-      super().add_node(var)
     self._refresh()
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 8c66ca8154aee8b27bcf4989e2f46318ec68f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:28 +0000
Subject: [PATCH 045/146] fix: recognise dictionary deltas of fields

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 871ebb7..5f1d199 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -259,7 +259,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Handle deltas and dictionaries
     if isinstance(self._delta, dict):
       self._delta = self._delta_type(**self._delta)
-    if isinstance(delta, self._delta_type):
+    if isinstance(self._delta, self._delta_type):
       assert not args, \
         "Optional args prohibited for dict/delta instance inputs"
       for i, var in enumerate(self._varlist):
-- 
2.43.0


From 230115d9ae396477fa091a3d8ae6baefb7a050b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:28 +0000
Subject: [PATCH 046/146] fix: follow the convention of each delta specified by
 variable name

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 5f1d199..c255d08 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -291,7 +291,7 @@ class Field (NX_UNDIRECTED_GRAPH):
           assert np.isfinite(self._lengths[i]), \
               "Cannot scale by infinite length for Variable {}".format(key)
           delta = val * self._lengths[i]
-        if urand:
+        if urand and key not in unscale:
           delta = [delta]
         delta_dict.update({key: delta})
       self._delta = self._delta_type(**delta_dict)
-- 
2.43.0


From a6826fd259a418890916cba3275c3b7ca4ae962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:28 +0000
Subject: [PATCH 047/146] fix: set the types of random variables specified
 without sets

---
 probayes/rv.py       | 4 ++--
 probayes/variable.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 96ad54c..e9f25a3 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -71,7 +71,7 @@ class RV (Variable, Prob):
     :param **kwds: optional keywords to pass if prob is callable.
     """
 
-    Variable.__init__(self, name, vtype, vset)
+    Variable.__init__(self, name, vset, vtype)
     Prob.__init__(self, prob, *args, **kwds)
     self._tran, self._tfun = None, None
 
@@ -584,7 +584,7 @@ class RV (Variable, Prob):
 def RVs(names, vtype=None, vset=None, prob=None, *args, **kwds):
   if isinstance(names, str):
     names = names.split(',')
-  varlist = [RV(name, vtype, vset, prob, *args, **kwds) for name in names]
+  varlist = [RV(name, vset, vtype, prob, *args, **kwds) for name in names]
   return tuple(varlist)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/variable.py b/probayes/variable.py
index c515484..8fe514d 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -105,7 +105,8 @@ class Variable (Icon):
     self.name = name
 
     # Allow positions of vtype and vset to be swapped
-    if isinstance(vtype, (list, tuple, set, range, np.ndarray)):
+    if isinstance(vset, type) or \
+        isinstance(vtype, (list, tuple, set, range, np.ndarray)):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-- 
2.43.0


From a5265db7763261db6b872fc953c9f155195eeeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:28 +0000
Subject: [PATCH 048/146] fix: discard the sampling functions of superseded
 probabilities

---
 probayes/prob.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/prob.py b/probayes/prob.py
index 1f3f980..98e93ec 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -137,6 +137,7 @@ class Prob (Expression, SympyProb):
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
+    self._pfun, self._sfun = None, None # these pertain to any previous prob
 
     # Probabilities can be defined as regular expressions, but iconise scalars
     if not self.__isscipy and not self.__issympy:
-- 
2.43.0


From c5d78f4b4e5835190e6fc4b380185f98c3160b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:28 +0000
Subject: [PATCH 049/146] fix: rescale evaluated probabilities when requested

---
 probayes/prob.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 98e93ec..a910de3 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -376,8 +376,8 @@ class Prob (Expression, SympyProb):
       prob = self._prob
 
     # Optionally rescale
-    if pscale:
-      return self.rescale(prob, kwds['pscale'])
+    if pscale is not None:
+      return self.rescale(prob, pscale=pscale)
     return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From f1fd06712edf30290c75b7482f81f1ce8ba1cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 050/146] fix: honour the scale of probabilities of boolean
 random variables

---
 probayes/rv.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index e9f25a3..0943d6e 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -132,8 +132,8 @@ class RV (Variable, Prob):
     super().set_prob(prob, *args, **kwds)
     if self._prob is None:
       self._default_prob()
-    else:
-      self.__def_prob = False
+      return
+    self.__def_prob = False
 
     # Check uncallable probabilities commensurate with self._vset
     if self._vset is not None and \
@@ -144,10 +144,13 @@ class RV (Variable, Prob):
 
     # Reassign non-0.5 Bernoulli probabilities to a formal distribution
     if self._vtype in VTYPES[bool] and self.isscalar:
-      prob = float(self._prob)
-      if not np.isclose(prob, 0.5):
-        super().set_prob(bernoulli_prob(self.icon, bias=prob))
-        super().set_sfun(bernoulli_sfun, bias=prob)
+      bias = float(rescale(float(self._prob), self._pscale, 1.))
+      if not np.isclose(bias, 0.5):
+        prob = bernoulli_prob(self.icon, bias=bias)
+        unit = float(rescale(1., 1., self._pscale))
+        prob = sympy.log(prob) + unit if self._logp else prob * unit
+        super().set_prob(prob)
+        super().set_sfun(bernoulli_sfun, bias=bias)
 
 #-------------------------------------------------------------------------------
   def _default_prob(self):
-- 
2.43.0


From 094b1943b50d6aa9c650805f3492aadcbdbd0309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 051/146] fix: restore default probabilities when unsetting a
 transformation

---
 probayes/rv.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 0943d6e..c43d360 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -199,15 +199,13 @@ class RV (Variable, Prob):
     Support for this transformation is only valid for float-type vtypes.
     """
     super().set_ufun(ufun, *args, **kwds)
-    if self._ufun is None:
-      return
 
     # Recalibrate defaulted probabilities for floating point vtypes
     if self._vtype in VTYPES[float]:
       self._default_prob()
 
     # Assert pfun is unspecified
-    assert self._pfun is None, \
+    assert self._ufun is None or self._pfun is None, \
       "Cannot assign univariate function alongside CDF/ICDF specification"
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 8eebb83284e981720fd0adbd66369c76a0ed3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 052/146] fix: sample flat transitions by inverse cumulative
 probability

---
 probayes/rv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index c43d360..1bbf302 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -392,10 +392,10 @@ class RV (Variable, Prob):
             "Inverse CDF sampling for scalar probabilities unavailable for " + \
             "{} data type".format(self._vtype)
         cdf_val = list(succ_vals)[0]
-        lo, hi = min(self._limits), max(self._limits)
-        succ_val = lo*(1.-cdf_val) + hi*cdf_val
-        if self._ufun is not None:
-          succ_val = self.ufun[-1](succ_val)
+        lo, hi = min(self._ulims), max(self._ulims)
+        succ_vals = lo*(1.-cdf_val) + hi*cdf_val
+        if self._ufun is not None and not self.no_ucov:
+          succ_vals = self.ufun[-1](succ_vals)
 
       prob = self._tran() if self._tran is not None else None
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
-- 
2.43.0


From f0cfce929472aedf39c7ff0a89b32c4fde08048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 053/146] fix: sample callable transitions by inverse
 cumulative probability

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 1bbf302..ea09367 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -424,7 +424,7 @@ class RV (Variable, Prob):
         assert isscalar(pred_vals), \
             "Successor sampling only possible with scalar predecessors"
         succ_vals = list(succ_vals)[0]
-        if type(succ_vals) in VTYPES[int] or type(succ_vals) in VTYPES[np.uint]:
+        if type(succ_vals) in VTYPES[int]:
           lo, hi = min(self._ulims), max(self._ulims)
           kwds.update({self._name+"'": np.array([lo, hi], dtype=float)})
           lohi = self._tfun[0](**kwds)
-- 
2.43.0


From f555b3180034a7fcacc992770da7cf3823d9008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 054/146] fix: sample multiple successors from transition
 matrices

---
 probayes/rv_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b6087b9..8cc2215 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -71,7 +71,8 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
   succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
-  return vset[succ_idx], pred_idx, succ_idx
+  succ_vals = vset[succ_idx] if isscalar(succ_idx) else np.array(vset)[succ_idx]
+  return succ_vals, pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
 def lookup_square_matrix(col_vals, row_vals, sq_matrix, 
-- 
2.43.0


From 720f057a48c9ae761fe942e78ed0cd8f20b01f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 055/146] fix: evaluate flat transitional probabilities
 according to scale

---
 probayes/rv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index ea09367..ed94e69 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -467,7 +467,8 @@ class RV (Variable, Prob):
       cond = uniform_prob(pred_vals,
                           succ_vals, 
                           prob=float(prob), 
-                          inside=self._inside) 
+                          inside=self._inside,
+                          pscale=self._pscale)
                   
 
     # Handle discrete non-callables
-- 
2.43.0


From fe155df9c925c61754d0065cb5bcab25d411e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 056/146] fix: evaluate probabilities specified as arrays

---
 probayes/rv.py       | 4 +++-
 probayes/rv_utils.py | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index ed94e69..0c7c9da 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -12,7 +12,7 @@ from probayes.vtypes import uniform, VTYPES, isscalar, \
 from probayes.pscales import rescale
 from probayes.expression import Expression
 from probayes.sympy_prob import bernoulli_prob, bernoulli_sfun
-from probayes.rv_utils import uniform_prob, matrix_cond_sample, \
+from probayes.rv_utils import uniform_prob, lookup_prob, matrix_cond_sample, \
                           lookup_square_matrix
 from probayes.distribution import Distribution
 from probayes.pd import PD
@@ -314,6 +314,8 @@ class RV (Variable, Prob):
     """
     values = values[self.name] if isinstance(values, dict) else values
     if not self.isscalar:
+      if not self.callable:
+        return lookup_prob(values, self._prob, self._vset, self._pscale)
       return super().eval_prob(values)
     return uniform_prob(values, 
                         prob=float(self._prob), 
diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index 8cc2215..049b241 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -46,6 +46,14 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
         prob = prob * uniform_prob(arg, inside=inside)
   return prob
 
+#-------------------------------------------------------------------------------
+def lookup_prob(vals, probs, vset, pscale=1.):
+  """ Looks up the probabilities in array probs for vals according to vset. """
+  p_zero = NEARLY_NEGATIVE_INF if iscomplex(eval_pscale(pscale)) else 0.
+  lookup = dict(zip(vset, np.ravel(probs).tolist()))
+  prob = [lookup.get(val, p_zero) for val in np.ravel(vals).tolist()]
+  return prob[0] if isscalar(vals) else np.array(prob).reshape(np.shape(vals))
+
 #-------------------------------------------------------------------------------
 def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   """ Returns succ_vals with sampling """
-- 
2.43.0


From 55fa28b08cd7bd00a53aac0c4cd172234980f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 057/146] fix: retain transitions specified when defaulting
 probabilities

---
 probayes/rv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 0c7c9da..98462f3 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -50,6 +50,7 @@ class RV (Variable, Prob):
 
   # Private
   __def_prob = None   # Flag to denote prob is defaulted
+  __def_tran = None   # Flag to denote tran is defaulted
   __sym_tran = None   # Flag to denote symmetric transitional
   __prime_key = None  # Modified-string to denote prime key for variable
 
@@ -165,7 +166,9 @@ class RV (Variable, Prob):
       prob = prob + sympy.log(self._ufun.derinv.expr) if self._logp else \
              prob * self._ufun.derinv.expr
     super().set_prob(prob)
-    self.set_tran(prob)
+    if self._tran is None or self.__def_tran:
+      self.set_tran(prob)
+      self.__def_tran = True
     self.__def_prob = True
 
 #-------------------------------------------------------------------------------
@@ -230,6 +233,7 @@ class RV (Variable, Prob):
     function, the corresponding (CDF, ICDF) must be set using set_tfun().
     """
     self._tran = tran
+    self.__def_tran = False
     self.__sym_tran = None
     if self._tran is None:
       return
-- 
2.43.0


From dd4683444ae540f7f9ae2e140e9b7a6b146970b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 058/146] fix: evaluate symbolic expressions for NumPy booleans

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 8e268b9..b217d70 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -186,7 +186,7 @@ class Expr:
     isarray = [None] * len(keys)
     vec_dim = [None] * len(keys)
     for i, key in enumerate(keys):
-      if isinstance(values[key], bool): # Sympy doesn't like bool types
+      if isinstance(values[key], (bool, np.bool_)): # Sympy doesn't like bool types
         values[key] = int(values[key])
       ekeys[i] = self._symbols[key]
       evalues[i] = values[key]
-- 
2.43.0


From 657370c8ea1ae1fe4431648fc1697b2d8f0a36ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 059/146] fix: sample transition matrices according to scale

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 98462f3..5444e72 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -415,7 +415,7 @@ class RV (Variable, Prob):
       if isunitset(succ_vals):
         succ_vals, pred_idx, succ_idx = matrix_cond_sample(pred_vals, 
                                                            succ_vals, 
-                                                           prob=prob, 
+                                                           prob=rescale(prob, self._pscale, 1.), 
                                                            vset=self._vset) 
         kwargs.update({'pred_idx': pred_idx, 'succ_idx': succ_idx})
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
-- 
2.43.0


From a93c4385d7e0e1393058fea0d88bb9fa21b6161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:40 +0000
Subject: [PATCH 060/146] fix: set only the methods available to SciPy
 distributions

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index a910de3..03aa803 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -211,7 +211,7 @@ class Prob (Expression, SympyProb):
 
       # Iterate available methods
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._prob, method):
+        if hasattr(self._expr, method):
           call = functools.partial(Expression._partial_call, self, 
                                    getattr(self._expr, method),
                                    *self._args, **self._kwds)
-- 
2.43.0


From 271482fc51759589fdf1c0c6bcd0f1975fac63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:40 +0000
Subject: [PATCH 061/146] fix: pass keywords to lambda functions of variable
 arguments

---
 probayes/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 0000d44..aca0153 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -7,6 +7,7 @@ not all expressions are functions.
 import types
 import collections
 import functools
+import inspect
 import sympy
 from probayes.vtypes import isscalar
 from probayes.icon import isiconic
@@ -399,7 +400,7 @@ class Expression:
     # Callables with neither order nor delta are straightforwards
     if not self.__order and not self.__delta:
       if self._islambda and hasattr(expr, '__code__') and \
-          not expr.__code__.co_argcount: # Allow argument-free lambdas
+          not inspect.signature(expr).parameters: # Allow argument-free lambdas
         assert not len(args), \
             "Unexpected entering of positional arguments: {}".format(args)
         return expr()
-- 
2.43.0


From 80c48588b16b6a4b6c735f7c34bb40354a895f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:28 +0000
Subject: [PATCH 062/146] fix: evaluate parallel dependences for scalar values

---
 probayes/sd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 0fe7761..c96847f 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -40,7 +40,7 @@ def arch_prob(arch, dims, **kwds):
   probs = [None] * len(arch)
   for i, subarch in enumerate(arch):
     keyset = subarch.keylist
-    vals = {key: values[key] for key in dimkeys if key in keyset}
+    vals = {key: val for key, val in values.items() if key in keyset}
     subdims = {key: dims[key] for key in dimkeys if key in keyset}
     probs[i] = subarch.eval_prob(vals, subdims)
   if serial:
-- 
2.43.0


From c935065ce90532863a0d27364b70a517e0c1b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:28 +0000
Subject: [PATCH 063/146] fix: evaluate multivariate distributions in the order
 of variables

---
 probayes/prob.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 03aa803..438eda8 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -352,10 +352,7 @@ class Prob (Expression, SympyProb):
           if len(vals) == 1:
             vals = np.array(vals)
           else:
-            vals = vals[::-1]
-            if len(vals) > 2:
-              vals = vals[1:] + [vals[0]]
-            vals = np.stack(np.meshgrid(*tuple(vals)), axis=-1)
+            vals = np.stack(np.broadcast_arrays(*tuple(vals)), axis=-1)
           prob = prob(vals)
         else:
           prob = prob(*args)
-- 
2.43.0


From 2a2cae488b6bd3baac4a0f7ffbf6ec35509d11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:28 +0000
Subject: [PATCH 064/146] fix: order the scalar values of fields by variable

---
 probayes/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index c255d08..6418157 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -394,7 +394,8 @@ class Field (NX_UNDIRECTED_GRAPH):
     
     # Don't reshape if all scalars (and therefore by definition no shared keys)
     if all([np.isscalar(value) for value in values.values()]): # use np.scalar
-      return values, dims
+      return collections.OrderedDict([(key, values[key]) 
+                                      for key in self._keylist]), dims
 
     # Create reference mapping for shared keys across vars
     values_ref = collections.OrderedDict({key: [key, None] for key in self._keylist})
-- 
2.43.0


From 43537b1cfea51a2520ff8fddc593f16c5b0c52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:09 +0000
Subject: [PATCH 065/146] fix: keep singleton dimensions evaluating
 multivariate distributions

---
 probayes/prob.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 438eda8..19b82a4 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -349,11 +349,9 @@ class Prob (Expression, SympyProb):
         prob = self._partials['logp'] if self._logp else self._partials['prob']
         if self.issmvar: # for mvar, convert dictionaries to arrays
           vals = list(args[0].values())
-          if len(vals) == 1:
-            vals = np.array(vals)
-          else:
-            vals = np.stack(np.broadcast_arrays(*tuple(vals)), axis=-1)
-          prob = prob(vals)
+          vals = np.stack(np.broadcast_arrays(*tuple(vals)), axis=-1)
+          shape = vals.shape[:-1] # SciPy drops singleton dimensions
+          prob = np.reshape(prob(vals), shape) if len(shape) else prob(vals)
         else:
           prob = prob(*args)
 
-- 
2.43.0


From b6b46a2886e4d877bf31c9e54cebff28e8960d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:01 +0000
Subject: [PATCH 066/146] fix: evaluate reverse transitions for proposals

---
 probayes/rf.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 06180db..8f46002 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -528,12 +528,9 @@ class RF (Field, Prob):
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(dist)
     dims = dist.dims
-    # This next line needs to be modified to handle new API
-    """
-    prob = dist.prob if self._sym_tran or self._tran is None \
-           else self._tran[1](dist)
-    """
-    prob = dist.prob
+    symmetric = self._sym_tran or self._tran is None or \
+                not self._tran.callable or self._tran.isscipy
+    prob = dist.prob if symmetric else self._tran[1](vals)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
-- 
2.43.0


From 1651de0eb3ed244034d7481bb42eb26566a76f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:01 +0000
Subject: [PATCH 067/146] fix: retain the symmetry of transitions set by
 subfields

---
 probayes/sd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/sd.py b/probayes/sd.py
index 77781c0..4e79f92 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -102,6 +102,7 @@ class SD (Dependence, RF):
     self._tran_obj = _tran
     self.set_prop_obj(self._tran_obj)
     self._tran = _tran.tran
+    self._sym_tran = _tran._sym_tran
     return self._tran
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 678bdcf355023f96639fba5330f33544f600fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:01 +0000
Subject: [PATCH 068/146] fix: score samples by the scales of their
 distributions

---
 probayes/sp_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index f2fe3d5..e6f37da 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -24,7 +24,8 @@ def metropolis_scores(opqr, pscale=None):
   if pred is None:
     return None
   assert isscalar(pred.prob), "Preceding probability distribution non-scalar"
-  return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+  return min(1., div_prob(succ.prob, pred.prob, 
+                          succ.pscale, pred.pscale, pscale=1.))
 
 #-------------------------------------------------------------------------------
 def metropolis_thresh(*args, **kwds):
@@ -49,14 +50,15 @@ def hastings_scores(opqr, pscale=None):
     return None
   else:
     assert isscalar(prop.prob), "Proposal probability non-scalar"
-    prop = rescale(prop.prob, pscale, 1.)
+    prop = rescale(prop.prob, prop.pscale, 1.)
     if prop <= 0.:
       return None
     if revp is None:
-      return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+      return min(1., div_prob(succ.prob, pred.prob, 
+                              succ.pscale, pred.pscale, pscale=1.))
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      revp = rescale(revp.prob, pscale, 1.)
+      revp = rescale(revp.prob, revp.pscale, 1.)
       if revp <= 0.:
         return 1.
       return min(1., div_prob(succ.prob * prop, 
-- 
2.43.0


From d56cb22b387471d362fb84564573dd480026a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:01 +0000
Subject: [PATCH 069/146] fix: correct the Hastings ratio for asymmetric
 proposals

---
 probayes/sp_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index e6f37da..c3f6653 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -59,11 +59,9 @@ def hastings_scores(opqr, pscale=None):
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
       revp = rescale(revp.prob, revp.pscale, 1.)
-      if revp <= 0.:
-        return 1.
-      return min(1., div_prob(succ.prob * prop, 
-                              pred.prob * revp, 
-                              pscale, pscale, pscale=1.))
+      return min(1., div_prob(succ.prob, pred.prob, 
+                              succ.pscale, pred.pscale, pscale=1.) * \
+                     revp / prop)
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From ed1798979551940b22029ef55a8d952d60faa9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 070/146] fix: separate the keywords of proposals and
 probabilities when sampling

---
 probayes/sd.py       | 5 +++--
 probayes/sd_utils.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 4e79f92..115d392 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -227,17 +227,18 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def _sample_prop(self, *args, **kwds):
+    suffix = "'" if 'suffix' not in kwds else kwds.pop('suffix')
 
     # Non-opqr argument requires no parsing
     if not isinstance(args[0], self._opqr):
-      prop = self.propose(args[0], **kwds)
+      prop = self.propose(args[0], suffix=suffix)
 
     # Otherwise parse:
     else:
       assert args[0].q is not None, \
           "An input opqr argument must contain a non-None value for opqr.q"
       vals = desuffix(args[0].q)
-      prop = self.propose(vals, **kwds)
+      prop = self.propose(vals, suffix=suffix)
 
     # Evaluation of probability
     vals = desuffix(prop)
diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index c96847f..33a0ea0 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -10,7 +10,7 @@ def desuffix(values, suffix="'"):
   suffix_found = any([key[-1] == suffix for key in values.keys()])
   vals = collections.OrderedDict()
   if not suffix_found:
-    vals.update({values})
+    vals.update(values)
     return vals
   for key, val in values.items():
     vals_key = key if key[-1] != suffix else key[:-1]
-- 
2.43.0


From 6e10e9ff860700d35bae80945c0e53ebbe60234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 071/146] fix: apply deltas to the proposals sampled from

---
 probayes/sd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 115d392..c509561 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -237,7 +237,7 @@ class SD (Dependence, RF):
     else:
       assert args[0].q is not None, \
           "An input opqr argument must contain a non-None value for opqr.q"
-      vals = desuffix(args[0].q)
+      vals = (self._prop_obj or self).apply_delta(desuffix(args[0].q))
       prop = self.propose(vals, suffix=suffix)
 
     # Evaluation of probability
-- 
2.43.0


From 38b0e34f7f7015eb48b8df60f4f9d7ad4761116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 072/146] fix: accept the dependencies of propositions

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 8f46002..f3bbfdb 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -151,7 +151,7 @@ class RF (Field, Prob):
     :param **kwds: optional keywords to pass if prop is callable.
     """
     self._prop = prop
-    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop['deps']
+    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop('deps')
     if self._prop is None:
       return
     assert self._anystoch, \
-- 
2.43.0


From ff4a39f179cc338b4fc8c0d0b29f293612bc4605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 073/146] fix: return whether dimensions are passed to
 probability functions

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index f3bbfdb..d8a8176 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -82,7 +82,7 @@ class RF (Field, Prob):
 
   @property
   def passdims(self):
-    return self.passdims
+    return self._passdims
 
   @property
   def def_prob(self):
-- 
2.43.0


From dbfdb82880574eda51061cedabb456a09989ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:52 +0000
Subject: [PATCH 074/146] fix: accept arrays when setting the transitions and
 proposals of dependences

---
 probayes/dependence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 8c60941..ee6027b 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -317,6 +317,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     """ Returns a proxy object from _subfields. """
     if spec is None:
       return self._subfields
+    if not isinstance(spec, (str, Field)):
+      return False
     if not isinstance(spec, str) and spec not in self._subfields.values(): 
       return False
     if isinstance(spec, str):
-- 
2.43.0


From 0cc09e745a0d1705e552ba98c71f33c575f8891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:52 +0000
Subject: [PATCH 075/146] fix: allow the proposals of dependences to be unset

---
 probayes/dependence.py | 2 +-
 probayes/sd.py         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index ee6027b..9fbb077 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -329,7 +329,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
 
 #-------------------------------------------------------------------------------
   def set_delta(self, delta=None, *args, **kwds):
-    _delta = self.leafs_roots(delta)
+    _delta = None if delta is None else self.leafs_roots(delta)
     if not _delta:
       return super().set_delta(delta, *args, **kwds)
     self.set_prop_obj(_delta)
diff --git a/probayes/sd.py b/probayes/sd.py
index c509561..a77ad0b 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -86,7 +86,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
-    _prop = self.leafs_roots(prop)
+    _prop = None if prop is None else self.leafs_roots(prop)
     if not _prop:
       return super().set_prop(prop, *args, **kwds)
     self.set_prop_obj(_prop)
@@ -95,7 +95,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_tran(self, tran=None, *args, **kwds):
-    _tran = self.leafs_roots(tran)
+    _tran = None if tran is None else self.leafs_roots(tran)
     if not _tran:
       self._tran_obj = self
       return super().set_tran(tran, *args, **kwds)
@@ -107,7 +107,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_tfun(self, tfun=None, *args, **kwds):
-    _tfun = self.leafs_roots(tfun)
+    _tfun = None if tfun is None else self.leafs_roots(tfun)
     if not _tfun:
       self._tran_obj = self
       return super().set_tfun(tfun, *args, **kwds)
-- 
2.43.0


From b5beefc5314e17042a24839801f5580e83e9c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:44 +0000
Subject: [PATCH 076/146] fix: draw no more samples than requested when walking

---
 probayes/sp.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index 35bb45e..02b0666 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -3,6 +3,7 @@
 #-------------------------------------------------------------------------------
 import collections
 import inspect
+import itertools
 import warnings
 from probayes.sd import SD
 from probayes.expression import Expression
@@ -287,11 +288,6 @@ class SP (SD):
         "No stop specification set - this walk may proceed indefinitely")
     if stop is None: 
       return collections.deque([sample for sample in sampler])
-    steps = collections.deque()
-    for sample in sampler:
-      if len(steps) >= stop:
-        break
-      steps.append(sample)
-    return steps
+    return collections.deque(itertools.islice(sampler, stop))
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 987d40b444c6c433372508ed352f6aa8d04d183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:32 +0000
Subject: [PATCH 077/146] fix: iterate conditional variables independently for
 each sampler

---
 probayes/rf.py | 14 +++++++-------
 probayes/sp.py | 18 +++++++++++++++---
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index d8a8176..7f9cad0 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -47,7 +47,7 @@ class RF (Field, Prob):
 
   # Private
   __def_prob = None   # Flag to denote prob is defaulted
-  __cond_mod = None  # conditional RV index modulus
+  _cond_mod = None   # conditional RV index modulus
   __cond_cov = None  # conditional covariance matrix
 
 #-------------------------------------------------------------------------------
@@ -444,12 +444,12 @@ class RF (Field, Prob):
     inp = self._tfun.ret_inp() # ?
     keys = list(succ_vals.keys()) if not inp else list(inp.keys())
     if self._tsteps:
-      if self.__cond_mod is None:
-        self.__cond_mod = 0
-      keys = keys[self.__cond_mod:(self.__cond_mod+self._tsteps)]
-      self.__cond_mod += self._tsteps
-      if self.__cond_mod >= len(succ_vals):
-        self.__cond_mod = 0
+      if self._cond_mod is None:
+        self._cond_mod = 0
+      keys = keys[self._cond_mod:(self._cond_mod+self._tsteps)]
+      self._cond_mod += self._tsteps
+      if self._cond_mod >= len(succ_vals):
+        self._cond_mod = 0
 
     # Handle unspecified input key handling separately
     if not inp:
diff --git a/probayes/sp.py b/probayes/sp.py
index 02b0666..2bf5eb6 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -27,6 +27,7 @@ class SP (SD):
   __samplers = None  # List of samplers
   __counter = None   # Step counter
   __last = None      # Last argument ordereddict
+  __cond_mod = None  # Conditional sampling index modulus ordereddict
 
 #-------------------------------------------------------------------------------
   def __init__(self, *args, **kwds):
@@ -118,6 +119,8 @@ class SP (SD):
       self.__counter = collections.Counter()
     if self.__last is None:
       self.__last = collections.OrderedDict()
+    if self.__cond_mod is None:
+      self.__cond_mod = collections.OrderedDict()
     if sampler_id is None:
       return
     sampler = self.get_sampler(sampler_id)
@@ -126,6 +129,7 @@ class SP (SD):
       self.__last[sampler] = None
     elif reset_last:
       self.__last[sampler] = None
+      self.__cond_mod[sampler] = None
     return self.__samplers, self.__counter, self.__last
 
 #-------------------------------------------------------------------------------
@@ -229,10 +233,15 @@ class SP (SD):
                   not self._unit_tran and self._prop is None
 
     # Treat sampling without proposals as a distribution call
-    if last is None or no_proposal:
+    if no_proposal:
+      return self.sample(*args, **kwds)
+
+    # Each sampler iterates through conditional variables independently
+    stepper = self._prop_obj or self
+    cond_mod = stepper._cond_mod
+    stepper._cond_mod = self.__cond_mod[sampler]
+    if last is None:
       opqr = self.sample(*args, **kwds)
-      if no_proposal:
-        return opqr
 
     # Otherwise refeed last proposals into sample function
     else:
@@ -244,6 +253,8 @@ class SP (SD):
       else:
         args = tuple([last] + list(args[1:]))
         opqr = self.sample(*args, **kwds)
+    self.__cond_mod[sampler] = stepper._cond_mod
+    stepper._cond_mod = cond_mod
 
     # Set to last if accept is not False
     stuv = self._stuv(self.eval_expr(self._scores, opqr),
@@ -276,6 +287,7 @@ class SP (SD):
     self.__samplers.append(sampler)
     self.__counter[sampler] = 0
     self.__last[sampler] = None
+    self.__cond_mod[sampler] = None
     return sampler
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 24997ce236767c905e64be3b3be608958db58182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:01 +0000
Subject: [PATCH 078/146] fix: apply covariance transitions to the deltas of
 variables

---
 probayes/rf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 7f9cad0..2bd9393 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -341,10 +341,10 @@ class RF (Field, Prob):
     delta = super().eval_delta(delta)
 
     # Adjust delta if there is LUD tfun
-    if self._tfun is None or self._tfun.isscalar:
+    if delta is None or self._tfun is None or self._tfun.isscalar:
       return delta
     elif not self._tfun.callable:
-      delta = self._tfun().dot(np.array(delta, dtype=float))
+      delta = self._tfun().dot(np.ravel(np.array(delta, dtype=float)))
       return self._delta_type(*delta)
     else:
       delta = self._tfun(delta)
-- 
2.43.0


From 82a26fea021f0288b3c432678ac3e0f06d52ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:01 +0000
Subject: [PATCH 079/146] fix: evaluate scalar transitions of fields

---
 probayes/rf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rf.py b/probayes/rf.py
index 2bd9393..f6386b2 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -509,6 +509,8 @@ class RF (Field, Prob):
           else:
             pred_vals.update({key: val})
       cond, _ = rv_prod_rule(pred_vals, succ_vals, rvs=rvs, pscale=self._pscale)
+    elif self._tran.isscalar:
+      return self._tran() if self._sym_tran else self._tran[int(reverse)]()
     elif not self._tran.callable or self._tran.isscipy:
       return cond
     else:
-- 
2.43.0


From 983cad8340ae87513359803c1b480b8ecb19aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:01 +0000
Subject: [PATCH 080/146] fix: sample field steps according to predecessor
 values

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index f6386b2..62d26fb 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -370,7 +370,7 @@ class RF (Field, Prob):
     """ Returns adjusted succ_vals """
     if succ_vals is None:
       if self._delta is None:
-        if all([isscalar(pred_value) for pred_value in pred_vals]):
+        if all([isscalar(pred_value) for pred_value in pred_vals.values()]):
           succ_vals = {0}
 
     # If not sampling succeeding values, use deterministic call
-- 
2.43.0


From ba7eabc96e76c538bdd5dda1a18cb43187088475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:20 +0000
Subject: [PATCH 081/146] fix: truncate conditional sampling by conditional
 means

---
 probayes/cond_cov.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 1e7621f..f2406c3 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -15,15 +15,14 @@ class CondCov:
   _scom = None # Schur complements
   _stdv = None # Conditional standard deviations
   _coef = None # Regression coefficients
-  _lims = None  # Recentered limits (Nx2 array)
-  _cdfs = None  # cdf-limits
+  _lims = None  # Limits (Nx2 array)
 
 #-------------------------------------------------------------------------------
   def __init__(self, mean, cov, lims):
     self._mean = np.atleast_1d(mean)
     self._cov = np.atleast_2d(cov)
     self._inv = np.linalg.inv(self._cov)
-    self._lims = np.atleast_2d(lims) - np.expand_dims(self._mean, -1)
+    self._lims = np.atleast_2d(lims)
     self._n = len(self._mean)
     assert len(self._cov) == self._n, \
         "Means and covariance matrix incommensurate"
@@ -35,8 +34,6 @@ class CondCov:
       cov = np.delete(np.delete(self._cov, (i), axis=1), (i), axis=0)
       self._coef[i] = ru.dot(np.linalg.inv(cov))
       self._stdv[i] = np.sqrt(self._cov[i, i] - float(self._coef[i].dot(ll)))
-    self._cdfs = np.array([scipy.stats.norm.cdf(lim, loc=0., scale=self._stdv[i]) \
-                          for i, lim in enumerate(self._lims)])
 
 #-------------------------------------------------------------------------------
   def interp(self, *args, cond_pdf=False):
@@ -54,11 +51,11 @@ class CondCov:
         dmu[i] = arg - self._mean[i]
     assert idx is not None, "No variable specified for interpolation"
     dmu = np.delete(dmu, (idx), axis=0)
-    lims = self._cdfs[idx]
-    number = list(args[idx])[0]
-    cdf = uniform(lims[0], lims[1], number)
     mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
     stdv = self._stdv[idx]
+    lims = scipy.stats.norm.cdf(self._lims[idx], loc=mean, scale=stdv)
+    number = list(args[idx])[0]
+    cdf = uniform(lims[0], lims[1], number)
     vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
     if not cond_pdf:
       return vals
-- 
2.43.0


From 25df2cc2823ff074f17c5c457bc9a63aa05a934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 082/146] fix: apply deltas to dependences without default
 deltas

---
 probayes/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 6418157..edf24f8 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -536,7 +536,8 @@ class Field (NX_UNDIRECTED_GRAPH):
         return variables[0].apply_delta(values, delta)
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
-    bound = self._delta_kwds.get('bound', None) # None defers to Variables
+    delta_kwds = self._delta_kwds or {}
+    bound = delta_kwds.get('bound', None) # None defers to Variables
     vals = collections.OrderedDict(values)
     keys = delta._fields
     for i, key in enumerate(keys):
-- 
2.43.0


From c7a0fc835c6d39d4ccd8350ddf975a01cc71162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:20 +0000
Subject: [PATCH 083/146] fix: rekey mapped arguments simultaneously

---
 probayes/expression.py | 7 +++++--
 probayes/func.py       | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index aca0153..c36864f 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -420,6 +420,7 @@ class Expression:
       args.append(None)
 
     # Callables with order wrapper
+    rekeyed = {}
     if self.__order:
       for key, val in self.__order.items():
         if type(val) is int:
@@ -427,10 +428,11 @@ class Expression:
         elif val is None:
           kwds.pop(key)
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          rekeyed.update({val: kwds.pop(key)})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
+      kwds.update(rekeyed)
       return expr(*tuple(args), **kwds)
 
     # Callables with delta wrapper
@@ -444,10 +446,11 @@ class Expression:
       elif val is None:
         pass
       elif isinstance(val, str):
-        kwds.update({val: value})
+        rekeyed.update({val: value})
       else:
         raise TypeError("Unrecognised delta key: val type: {}:{}".\
                         format(key, val))
+    kwds.update(rekeyed)
 
     #argsout = args; kwdsout = kwds; import pdb; pdb.set_trace() # debugging
     return expr(*tuple(args), **kwds)
diff --git a/probayes/func.py b/probayes/func.py
index b299ede..dececc2 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -291,6 +291,7 @@ class Func:
       args.append(None)
 
     # Callables with order wrapper
+    rekeyed = {}
     if self.__order:
       for key, val in self.__order.items():
         if type(val) is int:
@@ -298,10 +299,11 @@ class Func:
         elif val is None:
           kwds.pop(key)
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          rekeyed.update({val: kwds.pop(key)})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
+      kwds.update(rekeyed)
       return func(*tuple(args), **kwds)
 
     # Callables with delta wrapper
@@ -315,10 +317,11 @@ class Func:
       elif val is None:
         pass
       elif isinstance(val, str):
-        kwds.update({val: value})
+        rekeyed.update({val: value})
       else:
         raise TypeError("Unrecognised delta key: val type: {}:{}".\
                         format(key, val))
+    kwds.update(rekeyed)
     return func(*tuple(args), **kwds)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From d4af5f18ef8e6baffd195d1129bcdb3e9c64596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:02 +0000
Subject: [PATCH 084/146] fix: leave refused expression mappings unset

---
 probayes/expression.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index c36864f..5028323 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -251,23 +251,25 @@ class Expression:
     """ Sets an order remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
-    self.__order = order
-    if self.__order is None:
+    if order is None:
+      self.__order = None
       return
     assert self.__delta is None, "Cannot set both order and delta"
-    self._check_mapping(self.__order)
+    self._check_mapping(order)
+    self.__order = order
 
 #-------------------------------------------------------------------------------
   def set_delta(self, delta=None):
     """ Sets a difference remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
-    self.__delta = delta
-    if self.__delta is None:
+    if delta is None:
+      self.__delta = None
       return
     assert self.__order is None, "Cannot set both order and delta"
     assert not self.isiconic, "Cannot set delta when using symbols"
-    self._check_mapping(self.__delta)
+    self._check_mapping(delta)
+    self.__delta = delta
 
 #-------------------------------------------------------------------------------
   def _check_mapping(self, mapping=None):
@@ -291,7 +293,7 @@ class Expression:
       elif ind is None:
         pass
       elif not isinstance(ind, str):
-        raise TypeError("Cannot interpret index specification value: {}".ind)
+        raise TypeError("Cannot interpret index specification value: {}".format(ind))
     indset = set(inds)
     if len(indset):
       assert indset == set(range(min(indset), max(indset)+1)), \
-- 
2.43.0


From 201d52d6a5359f9ab95f63a679f1a8beaf704acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:02 +0000
Subject: [PATCH 085/146] fix: keep function handles and refused mappings
 independent

---
 probayes/cf.py   |  6 ++++--
 probayes/func.py | 22 +++++++++++++---------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/probayes/cf.py b/probayes/cf.py
index 5f212ec..9342b38 100644
--- a/probayes/cf.py
+++ b/probayes/cf.py
@@ -205,8 +205,10 @@ class CF (Func):
      return super().__getitem__(spec)
    assert self.__inpdict, \
        "Input spec as a string only supported with a OrderedDict inp"
-   self.__unknown = spec
-   return self._call
+   def call(*args, **kwds):
+     self.__unknown = spec
+     return self._call(*args, **kwds)
+   return call
 
 #-------------------------------------------------------------------------------
   def _call(self, *args, **kwds):
diff --git a/probayes/func.py b/probayes/func.py
index dececc2..8ebbb2d 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -139,26 +139,28 @@ class Func:
     """ Sets an order remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
-    self.__order = order
-    if self.__order is None:
+    if order is None:
+      self.__order = None
       return
     assert self.__delta is None, "Cannot set both order and delta"
     assert self.__scipyobj is None, \
         "Optional 'order' keyword prohibited for scipy objectts"
-    self._check_mapping(self.__order)
+    self._check_mapping(order)
+    self.__order = order
 
 #-------------------------------------------------------------------------------
   def set_delta(self, delta=None):
     """ Sets a difference remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
-    self.__delta = delta
-    if self.__delta is None:
+    if delta is None:
+      self.__delta = None
       return
     assert self.__order is None, "Cannot set both order and delta"
     assert self.__scipyobj is None, \
         "Optional 'delta' keyword prohibited for scipy objectts"
-    self._check_mapping(self.__delta)
+    self._check_mapping(delta)
+    self.__delta = delta
 
 #-------------------------------------------------------------------------------
   def _check_mapping(self, mapping=None):
@@ -179,7 +181,7 @@ class Func:
       elif ind is None:
         pass
       elif not isinstance(ind, str):
-        raise TypeError("Cannot interpret index specification value: {}".ind)
+        raise TypeError("Cannot interpret index specification value: {}".format(ind))
     indset = set(inds)
     if len(indset):
       assert indset == set(range(min(indset), max(indset)+1)), \
@@ -364,8 +366,10 @@ class Func:
      return self._func
    assert self.__ismulti or self.__isscipy, \
      "Cannot index without single func, use Func()"
-   self.__index = spec
-   return self._call
+   def call(*args, **kwds):
+     self.__index = spec
+     return self._call(*args, **kwds)
+   return call
 
 #-------------------------------------------------------------------------------
   def __len__(self):
-- 
2.43.0


From 6b63e005839f2fe21aa45cd8b74af796622d0200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 086/146] fix: fall back when symbols cannot be compiled

---
 probayes/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index b217d70..860340b 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -4,7 +4,7 @@
 import collections
 import sympy
 import numpy as np
-from sympy.utilities.autowrap import ufuncify
+from sympy.utilities.autowrap import ufuncify, CodeWrapError
 from probayes.variable_utils import parse_as_str_dict
 
 DEFAULT_EFUNS = [
@@ -156,7 +156,7 @@ class Expr:
       if key not in self._efun:
         try:
           self._efun.update({key: val(symbols, self._expr, *args, **kwds)})
-        except (TypeError, ImportError, AttributeError): # Bypass sympy bugs
+        except (TypeError, ImportError, AttributeError, CodeWrapError): # Bypass sympy bugs
           pass
           # import pdb; pdb.set_trace()
     return self._efun
-- 
2.43.0


From 75e4ae5c390993b5d1b1b509d162ebba2e3d999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 087/146] fix: keep implicit densities of decreasing
 transformations positive

---
 probayes/rv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 5444e72..25de61d 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -163,8 +163,10 @@ class RV (Variable, Prob):
       return
     prob = rescale(self._nlhv, 'log', self._pscale)
     if self._ufun is not None and self.no_ucov:
-      prob = prob + sympy.log(self._ufun.derinv.expr) if self._logp else \
-             prob * self._ufun.derinv.expr
+      derinv = self._ufun.derinv.expr
+      if np.diff(self._ufun[0](self._vlims)) < 0.: # densities are positive
+        derinv = -derinv
+      prob = prob + sympy.log(derinv) if self._logp else prob * derinv
     super().set_prob(prob)
     if self._tran is None or self.__def_tran:
       self.set_tran(prob)
-- 
2.43.0


From deea88e6ca8e4bc42d0b9c40290d881c0af3c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 088/146] fix: return deterministic expressions of variables

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 8fe514d..e133b41 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -764,7 +764,7 @@ class Variable (Icon):
     """ Sets iconic deterministic expression, substituting for icon in [:] """
     return self._dexpr
 
-  @name.setter
+  @dexpr.setter
   def dexpr(self, dexpr=None):
     self._dexpr = None if self._is_stochastic else dexpr
 
-- 
2.43.0


From 4be1a3279733c6139ac5b031c15f13b794a8062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 089/146] fix: reset derivatives and index last of iconic
 expressions

---
 probayes/expression.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 5028323..2ac0349 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -167,7 +167,7 @@ class Expression:
     self.__delta = None
     self.__inverse = None
     self.__invexpr = None
-    self.__invderi = None
+    self.__derinv = None
     self.__invertible = False if 'invertible' not in kwds else \
                         self._kwds.pop('invertible')
     self._exprs = collections.OrderedDict()
@@ -337,15 +337,11 @@ class Expression:
           self._partials.update({1: call})
           self._partials.update({-1: call})
       else:
-        if isinstance(self._exprs, tuple):
-          for i, expr in enumerate(self._exprs):
-            call = functools.partial(Expr.__call__, expr)
-            self._partials.update({i: call})
+        for key, val in self._exprs.items():
+          call = functools.partial(Expr.__call__, val)
+          self._partials.update({key: call})
+        if isinstance(self._expr, tuple):
           self._partials.update({-1: call})
-        elif isinstance(self._exprs, dict):
-          for key, val in self._exprs.items():
-            call = functools.partial(Expr.__call__, val)
-            self._partials.update({key: call})
 
     # Non-multiples are keyed by: None
     elif not self._ismulti:
-- 
2.43.0


From 7b3f96cc9d9031ef53b974c6779b7e0485e85215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:04 +0000
Subject: [PATCH 090/146] fix: evaluate expressions of boolean arrays as
 numbers

---
 probayes/expr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/expr.py b/probayes/expr.py
index 860340b..8e4eb44 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -188,6 +188,8 @@ class Expr:
     for i, key in enumerate(keys):
       if isinstance(values[key], (bool, np.bool_)): # Sympy doesn't like bool types
         values[key] = int(values[key])
+      elif isinstance(values[key], np.ndarray) and values[key].dtype == bool:
+        values[key] = values[key].astype(int)
       ekeys[i] = self._symbols[key]
       evalues[i] = values[key]
       _etype = type(evalues[i])
-- 
2.43.0


From 6242d9d345d0e0f6fdb68634bc0d1cf65b4a9de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:04 +0000
Subject: [PATCH 091/146] fix: substitute symbols themselves and broadcast
 iterated arrays

---
 probayes/expr.py | 42 +++++++++++-------------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 8e4eb44..2c8e6c7 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -184,7 +184,6 @@ class Expr:
     evalues = [None] * len(keys)
     ekeys = [None] * len(keys)
     isarray = [None] * len(keys)
-    vec_dim = [None] * len(keys)
     for i, key in enumerate(keys):
       if isinstance(values[key], (bool, np.bool_)): # Sympy doesn't like bool types
         values[key] = int(values[key])
@@ -194,11 +193,6 @@ class Expr:
       evalues[i] = values[key]
       _etype = type(evalues[i])
       isarray[i] = _etype is np.ndarray
-      if isarray[i]:
-        non_sing = np.array(evalues[i].shape) > 1
-        non_sing_sum = non_sing.sum()
-        if non_sing_sum > 0:
-          vec_dim[i] = int(np.nonzero(non_sing)[0][0])
       if etype is None: 
         if _etype in self._efun.keys():
           etype = _etype
@@ -209,7 +203,7 @@ class Expr:
     # If supported efun found or not array, then use it
     if not(any(isarray)) or np.ndarray in self._efun:
       efun = self._efun[etype]
-      vals = efun(*evalues) if etype else efun(values)
+      vals = efun(*evalues) if etype else efun(dict(zip(ekeys, evalues)))
       if isinstance(vals, np.ndarray):
         return vals
       elif isinstance(vals, sympy.Integer):
@@ -225,31 +219,17 @@ class Expr:
     # Try to support iterating numpy-array even without a NumPy eval func
     if any(isarray) and np.ndarray not in self._efun:
       efun = self._efun[None]
-
-      vec_dims = np.array([dim for dim in vec_dim if dim is not None])
-      # Is a sort required (meshgrid seems to prefer reverse order)?
-      if len(vec_dims) > 1 and np.max(np.diff(vec_dims)) > 0:
-        values = sort_ordered_dict(values, vec_dim, reverse=True)
-        evalues = list(values.values())
-      mesh_values = [val for i, val in enumerate(evalues) if isarray[i]]
-      mesh_grid = np.meshgrid(*tuple(mesh_values), copy=False)
-      revalues = collections.OrderedDict()
-      shape = None
-      mesh_idx = -1
-      for i, key in enumerate(keys):
-        if isarray[i]:
-          mesh_idx += 1
-          shape = mesh_grid[mesh_idx].shape
-          revalues.update({key: np.ravel(mesh_grid[mesh_idx])})
-        else:
-          revalues.update({key: values[key]})
-      size = int(np.prod(shape))
-      vals = dict(values)
-      reval = [None] * size
-      for k in range(size):
-        for i, key in enumerate(keys):
+      grid = np.broadcast_arrays(*tuple([val for i, val in enumerate(evalues) \
+                                         if isarray[i]]))
+      shape = grid[0].shape
+      vals = dict(zip(ekeys, evalues))
+      reval = [None] * grid[0].size
+      for k in range(grid[0].size):
+        grid_idx = -1
+        for i, key in enumerate(ekeys):
           if isarray[i]:
-            vals.update({key: revalues[key][k]})
+            grid_idx += 1
+            vals.update({key: np.ravel(grid[grid_idx])[k]})
         val = efun(vals)
         if isinstance(val, sympy.Integer):
           reval[k] = int(val)
-- 
2.43.0


From 92113edc095c0d93be5ec91b883dddb3eb012c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:04 +0000
Subject: [PATCH 092/146] fix: remap keywords as well as dictionaries

---
 probayes/variable_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/variable_utils.py b/probayes/variable_utils.py
index 4b50bf9..fc716ae 100644
--- a/probayes/variable_utils.py
+++ b/probayes/variable_utils.py
@@ -12,7 +12,9 @@ def parse_as_str_dict(*args, **kwds):
   a dictionary. """
 
   remap = None if 'remap' not in kwds else kwds.pop('remap')
-  kwds = collections.OrderedDict(kwds)
+  kwds = collections.OrderedDict(
+      [(remap[key] if remap and key in remap else key, val) \
+       for key, val in kwds.items()])
   if not args:
     return kwds
   args_dict = collections.OrderedDict()
-- 
2.43.0


From 68bff0841a3939eba6f779fff5931c33427590c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:04 +0000
Subject: [PATCH 093/146] fix: replace evaluation and attributes of replaced
 expressions

---
 probayes/expr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/probayes/expr.py b/probayes/expr.py
index 2c8e6c7..a507723 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -81,6 +81,7 @@ class Expr:
   _expr = None    # Expression object
 
   # Protected
+  _members = None # List of attributes copied from the expression
   _symbols = None # Ordered dictionary of symbols keyed by name
   _efun = None    # Dictionary of evaluation functions
   _remap = None   # Optional dictionary for remapping
@@ -106,8 +107,12 @@ class Expr:
     """
     self._expr = expr
     self._symbols = collate_symbols(self._expr)
+    self._efun = None
 
     # Make instance play nicely with Sympy by copying attributes and hash content
+    for member in self._members or []:
+      delattr(self, member)
+    self._members = []
     members = dir(self._expr)
     for member in members:
       if member == 'expr_free_symbols':
@@ -116,6 +121,7 @@ class Expr:
         try:
           attribute = getattr(self._expr, member)
           setattr(self, member, attribute)
+          self._members.append(member)
         except AttributeError:
           pass
 
-- 
2.43.0


From e4943580ad9ca9034223ba0591847eb9a90cfea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:04 +0000
Subject: [PATCH 094/146] fix: replace attributes of replaced icons

---
 probayes/icon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/probayes/icon.py b/probayes/icon.py
index 31fc20a..3261c13 100644
--- a/probayes/icon.py
+++ b/probayes/icon.py
@@ -42,6 +42,7 @@ class Icon:
   >>>
   """
   _icon = None
+  _members = None # List of attributes copied from the icon
 
 #-------------------------------------------------------------------------------
   def __init__(self, icon, *args, **kwds):
@@ -68,6 +69,9 @@ class Icon:
       raise TypeError("Symbol name must be string; {} entered".format(self._icon))
 
     # Copy attributes and hash content
+    for member in self._members or []:
+      delattr(self, member)
+    self._members = []
     members = dir(self._icon)
     for member in members:
       if member == 'expr_free_symbols':
@@ -76,6 +80,7 @@ class Icon:
         try:
           attribute = getattr(self._icon, member)
           setattr(self, member, attribute)
+          self._members.append(member)
         except AttributeError:
           pass
 
-- 
2.43.0


From 6db65896092256f7990a3eb7a1449ef71e4c09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:55 +0000
Subject: [PATCH 095/146] fix: keep probabilities implied by linear
 transformations scalar

---
 probayes/rv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rv.py b/probayes/rv.py
index 25de61d..02b3cae 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -167,6 +167,8 @@ class RV (Variable, Prob):
       if np.diff(self._ufun[0](self._vlims)) < 0.: # densities are positive
         derinv = -derinv
       prob = prob + sympy.log(derinv) if self._logp else prob * derinv
+      if not prob.free_symbols: # linear transformations leave it uniform
+        prob = float(prob)
     super().set_prob(prob)
     if self._tran is None or self.__def_tran:
       self.set_tran(prob)
-- 
2.43.0


From e64dfe80dde32975095291b7fcc897019746a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:14 +0000
Subject: [PATCH 096/146] fix: provide functionals for implicit dependences

---
 probayes/dependence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 9fbb077..798275d 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -242,7 +242,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       self._preds = self._field_cls(*tuple(preds))
 
     # Default functions for implicit architectures
-    if self._arch: # TODO self._arch must always be defined by this point
+    if self._arch is not None: # TODO self._arch must always be defined by this point
       self._func = Functional(self._leafs, self._preds)
 
     # Set convenience subfields, and evaluate name and id from leafs and roots only
@@ -268,7 +268,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     return self._func
 
   def add_func(self, spec, func, *args, **kwds):
-    assert self._func, \
+    assert isinstance(self._func, Functional), \
         "Architectual specification not able to accommodate functionals"
     self._func.add_func(spec, func, *args, **kwds)
 
-- 
2.43.0


From c4dbdc7201ac21ef1ee3d4bf832021d78d6ecbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:14 +0000
Subject: [PATCH 097/146] fix: accept more than two fields for a dependence

---
 probayes/dependence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 798275d..941ea18 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -94,7 +94,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
         for var in variables:
           NX_DIRECTED_GRAPH.add_node(self, var)
         return self._refresh(fields[0])
-      leafs_vars = fields[0].varlist
+      leafs_vars = list(fields[0].varlist)
       roots_vars = fields[-1].varlist
       if len(fields) > 2:
         for field in fields[1:-1]:
@@ -112,7 +112,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
           NX_DIRECTED_GRAPH.add_edge(self, roots_var, leafs_var)
       if len(fields) == 2:
         return self._refresh(fields[0], fields[1])
-      return self._refresh(self._field_cls(*tuple(leafs_var)), fields[-1])
+      return self._refresh(self._field_cls(*tuple(leafs_vars)), fields[-1])
 
     # At this point, all arguments must be dependences
     assert all(arg_aredep), "Cannot mix Dependences with other input types"
-- 
2.43.0


From 8f0702f505c52c10723abc2070989837c2acec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:14 +0000
Subject: [PATCH 098/146] fix: combine variables with dependences

---
 probayes/ops.py | 6 +++---
 probayes/rv.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index 5da738a..aa683f7 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -54,12 +54,12 @@ def and_op(self, other):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = fld(*tuple(leafs))
+      args = [fld(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return dep(*args)
+        args += [roots]
+      return dep(*tuple(args))
 
     if isinstance(other, Field):
       var = [self] + list(other.vars.values())
diff --git a/probayes/rv.py b/probayes/rv.py
index 02b3cae..4b5e2e6 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -559,12 +559,12 @@ class RV (Variable, Prob):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = RF(*tuple(leafs))
+      args = [RF(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return SD(*args)
+        args += [roots]
+      return SD(*tuple(args))
 
     if isinstance(other, RF):
       rvs = [self] + list(other.vars.values())
-- 
2.43.0


From 59160f197e096e31a08f6d3697edaed4c0d8a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:14 +0000
Subject: [PATCH 099/146] fix: accept fields to initialise fields

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index edf24f8..496894a 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -102,7 +102,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     
     """
     self._leafs, self._stems, self._roots = self, None, None
-    if len(args) == 1 and isinstance(args[0], (Variable, set, tuple, list)):
+    if len(args) == 1 and isinstance(args[0], (Variable, Field, set, tuple, list)):
       args = args[0]
     else:
       args = tuple(args)
-- 
2.43.0


From 5cedcb76a7ebf4981c1260e6c2b77495c08db00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:32 +0000
Subject: [PATCH 100/146] fix: report whether functionals are iconic

---
 probayes/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 28735ba..561892c 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -105,7 +105,7 @@ class Functional:
   @property
   def isiconic(self):
     """ Iconic flag """
-    return self._iconic
+    return self._isiconic
 
   def add_func(self, spec, func, *args, **kwds):
     """ Adds an function dependency for a specificied inp/out relationship where
-- 
2.43.0


From 2d92ee32fa6906bcf92957cbdb31fa607c140d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:32 +0000
Subject: [PATCH 101/146] fix: validate functional specifications before adding
 them

---
 probayes/functional.py       | 37 ++++++++++++++++++------------------
 probayes/functional_utils.py |  9 +++++++--
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 561892c..1c5e6bf 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -132,37 +132,26 @@ class Functional:
     if self._deps:
       assert spec_out not in self._deps.keys(), \
           "Output dependence for {} already previously set".format(spec_out)
-    self._deps.update({spec_out: spec_inp})
-    self._ndeps = len(self._deps)
 
-    # Update funcs and set isiconic flag if not previously set
-    self._funcs.update({spec_out: Expression(func, *args, **kwds)})
-    if self._isiconic is None:
-      self._isiconic = self._funcs[spec_out].isiconic
-    else:
-       assert self._isiconic == self._funcs[spec_out].isiconic, \
+    # Check the function consistent with any isiconic flag previously set
+    expr = Expression(func, *args, **kwds)
+    if self._isiconic is not None:
+       assert self._isiconic == expr.isiconic, \
            "Cannot mix iconic and non-iconic expressions within functional"
 
-    # If iconic, check for single spec_out and update dexpr if available
-    if self._isiconic:
+    # If iconic, check for single spec_out
+    if expr.isiconic:
       assert not len(args) and not len(kwds), \
           "No optional arguments or keywords supported for iconic functions"
       assert len(spec_out) == 1, \
           "Only single output functions supported for iconic expressions"
-      key = list(spec_out)[0]
-      assert key in self._out_set, \
-          "Key {} not found in amount output set {}".format(key, self._out_set)
-      var = self._out_dict[key]
-      if hasattr(var, 'dexpr'):
-        var.dexpr = func
 
     # Detect inputs for iconics if not specified
     if spec_inp is None:
-      assert self._isiconic, \
+      assert expr.isiconic, \
           "Input specification mandatory for non-iconic functionals"
-      spec_inp = tuple(self._funcs[spec_out].symbols.keys())
+      spec_inp = tuple(expr.symbols.keys())
       spec_inp = parse_identifiers(spec_inp)
-      self._deps[spec_out] = spec_inp
 
     # Detect subsets are covered
     assert spec_out.issubset(self._out_set), \
@@ -170,6 +159,16 @@ class Functional:
     assert spec_inp.issubset(self._inp_set), \
         "Specification input must be a subset of input graph"
 
+    # Update deps, funcs, isiconic flag, and dexpr if available
+    self._deps.update({spec_out: spec_inp})
+    self._ndeps = len(self._deps)
+    self._funcs.update({spec_out: expr})
+    self._isiconic = expr.isiconic
+    if self._isiconic:
+      var = self._out_dict[list(spec_out)[0]]
+      if hasattr(var, 'dexpr'):
+        var.dexpr = func
+
     self._set_partials()
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/functional_utils.py b/probayes/functional_utils.py
index 9a0359e..413ecc7 100644
--- a/probayes/functional_utils.py
+++ b/probayes/functional_utils.py
@@ -31,9 +31,14 @@ def parse_identifiers(identifiers):
   """
   if isinstance(identifiers, str):
     return frozenset(identifiers.split(','))
-  if not isinstance(identifiers, (list, tuple, set)):
+  if not isinstance(identifiers, (list, tuple, set, frozenset)):
     identifiers = identifiers,
-  keys = list(identifiers)
+  keys = []
+  for identifier in identifiers:
+    if isinstance(identifier, (str, list, tuple, set, frozenset)):
+      keys.extend(parse_identifiers(identifier))
+    else:
+      keys.append(identifier)
   for i, key in enumerate(keys):
     if not isinstance(key, str):
       assert hasattr(key, 'name'), \
-- 
2.43.0


From a8a7a3efe0482d461a734c9088469dc62f75486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:21 +0000
Subject: [PATCH 102/146] fix: allow absence of arguments that are dropped

---
 probayes/expression.py | 2 +-
 probayes/func.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 2ac0349..1804d52 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -424,7 +424,7 @@ class Expression:
         if type(val) is int:
           args[val] = kwds.pop(key)
         elif val is None:
-          kwds.pop(key)
+          kwds.pop(key, None)
         elif isinstance(val, str):
           rekeyed.update({val: kwds.pop(key)})
         else:
diff --git a/probayes/func.py b/probayes/func.py
index 8ebbb2d..09bf289 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -299,7 +299,7 @@ class Func:
         if type(val) is int:
           args[val] = kwds.pop(key)
         elif val is None:
-          kwds.pop(key)
+          kwds.pop(key, None)
         elif isinstance(val, str):
           rekeyed.update({val: kwds.pop(key)})
         else:
-- 
2.43.0


From 366a51db05c8656db055e83b4a88839d2f4468b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:09 +0000
Subject: [PATCH 103/146] fix: evaluate reverse proposals of the transitions of
 variables

---
 probayes/rf.py | 10 +++++++---
 probayes/sd.py |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 62d26fb..0c7f76c 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -530,9 +530,13 @@ class RF (Field, Prob):
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(dist)
     dims = dist.dims
-    symmetric = self._sym_tran or self._tran is None or \
-                not self._tran.callable or self._tran.isscipy
-    prob = dist.prob if symmetric else self._tran[1](vals)
+    rvs = self._varlist
+    if self._tran is None and len(rvs) == 1 and rvs[0].tran is not None:
+      prob = rvs[0].eval_tran(vals, reverse=True)
+    else:
+      symmetric = self._sym_tran or self._tran is None or \
+                  not self._tran.callable or self._tran.isscipy
+      prob = dist.prob if symmetric else self._tran[1](vals)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
diff --git a/probayes/sd.py b/probayes/sd.py
index a77ad0b..7376f07 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -275,7 +275,8 @@ class SD (Dependence, RF):
       prop = self.step(vals, **kwds)
 
     # Evaluate reverse proposal if transition function not symmetric
-    if not self._sym_tran and not self._unit_tran:
+    if not self._sym_tran and \
+        (not self._unit_tran or self._varlist[0].tran.ismulti):
       revp = self.reval_tran(prop)
 
     # Extract values evaluating probability
-- 
2.43.0


From 0202408fdd601e5323e96573a3f007585f001973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:48 +0000
Subject: [PATCH 104/146] fix: combine parallel dependences of different scales

---
 probayes/sd.py       | 5 ++++-
 probayes/sd_utils.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 7376f07..878a7ab 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -6,6 +6,7 @@ import collections
 from probayes.dependence import Dependence
 from probayes.rv import RV
 from probayes.rf import RF
+from probayes.pscales import prod_pscale
 from probayes.pd_utils import product
 from probayes.sd_utils import desuffix, get_suffixed, arch_prob
 
@@ -82,7 +83,9 @@ class SD (Dependence, RF):
     prob = super().set_prob(prob, *args, **kwds)
     if prob is not None or not isinstance(self._arch, (list, tuple)):
       return prob
-    return super().set_prob(arch_prob, arch=self._arch, passdims=True)
+    pscale = kwds.get('pscale', prod_pscale([arch.pscale for arch in self._arch]))
+    return super().set_prob(arch_prob, arch=self._arch, arch_pscale=pscale,
+                            passdims=True, pscale=pscale)
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 33a0ea0..83c4eb6 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -1,7 +1,7 @@
 # Utility module for SD objects
 
 import collections
-from probayes.pscales import prod_rule
+from probayes.pscales import prod_rule, rescale
 
 #-------------------------------------------------------------------------------
 def desuffix(values, suffix="'"):
@@ -30,7 +30,7 @@ def get_suffixed(values, unsuffix=True, suffix="'"):
   return vals
 
 #-------------------------------------------------------------------------------
-def arch_prob(arch, dims, **kwds):
+def arch_prob(arch, dims, arch_pscale=None, **kwds):
   """ Returns the combined probability of for arch given values """
  
   values = dict(kwds)
@@ -47,6 +47,6 @@ def arch_prob(arch, dims, **kwds):
     return probs[-1]
   pscales = [subarch.pscale for subarch in arch]
   prob, pscale = prod_rule(*tuple(probs), pscales=pscales)
-  return prob
+  return prob if arch_pscale is None else rescale(prob, pscale, arch_pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From d83537f0a7ae97215a16babb4e15af449e1f075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:59 +0000
Subject: [PATCH 105/146] fix: substitute the expression given even when it is
 zero

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index a507723..19f0137 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -268,7 +268,7 @@ class Expr:
   def subre(self, expr=None):
     """ Substitutes known symbols within expression with explicitly real
     equivalents, denoted using __name__. """
-    expr = expr or self._expr
+    expr = self._expr if expr is None else expr
     real_symbols = collections.OrderedDict()
     for key, val in self._symbols.items():
       real_name = '__{}__'.format(key)
-- 
2.43.0


From fb77346404fd84a212b5367b067667e6df3f0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:55 +0000
Subject: [PATCH 106/146] fix: add the baseline frequency to the counts of
 observations

---
 probayes/likelihoods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/likelihoods.py b/probayes/likelihoods.py
index cad3fac..3cbceaf 100644
--- a/probayes/likelihoods.py
+++ b/probayes/likelihoods.py
@@ -68,6 +68,8 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
   sequences = bool_2d.astype(int).tolist()
   for sequence in sequences:
     counts[tuple(sequence)] += 1
+  if base_freq:
+    counts = counts + base_freq
   if col_labels is None:
     return counts
   assert len(col_labels) == cols, \
@@ -81,9 +83,7 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
     reshape[dim] = 2
     dims.update({lbl: dim})
     vals.update({lbl: np.array([False, True]).reshape(reshape)})
-  if base_freq:
-    base_freq += counts
-  rel_freq = counts / rows
+  rel_freq = counts / counts.sum()
 
   def _func_bool_perm_freq(spec=None, **kwds):
     assert 'dims' in kwds, \
-- 
2.43.0


From c5c12632af3038924c653e860d72bfb0515740ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:55 +0000
Subject: [PATCH 107/146] fix: evaluate counted likelihoods of scalars

---
 probayes/rf_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 1737a1d..ff68aed 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -104,6 +104,8 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
   if spec_dims is None:
     spec_dims = dims_from_vals(spec)
   else:
+    scalars = {key: None for key in keys if isscalar(spec[key])}
+    spec_dims = {**spec_dims, **scalars}
     assert set(spec.keys()) == set(spec_dims.keys()), \
         "Keys for spec and spec_dims unmatched"
   if vals_dims is None:
-- 
2.43.0


From e9bd79e2c45f7cf2560fb1fc918f0a470229c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 108/146] fix: keep counted likelihoods with their labels in
 any order

---
 probayes/rf_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index ff68aed..c24dc14 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -76,7 +76,7 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
 
   If vals_dims and/or spec_dims are not entered, they are 'guessed' from vals
   and spec respectively, but correct guessing is not assured. Non-none dimensions
-  for vals_dims and spec_dims must be mutually ordered monotically by key.
+  for vals_dims and spec_dims must each be ordered monotically by key.
   """
 
   # Check for consistent keys
@@ -155,7 +155,8 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if n_matches == 0:
         slices[dim] = slice(0, 0)
       elif n_matches == 1:
-        slices[dim] = np.nonzero(match)[0]
+        index = int(np.argmax(match))
+        slices[dim] = slice(index, index + 1)
       else:
         raise ValueError("Non-unique matches found")
     else:
@@ -163,6 +164,12 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
           "Ambiguous specification with values mismatch"
       dim = spec_dims[key]
       reshape[dim] = vals[key].size
-  return prob[tuple(slices)].reshape(reshape)
+
+  # Re-order the dimensions of prob if different from those of spec
+  order = {dim: spec_dims[key] for key, dim in vals_dims.items() 
+                               if dim is not None and spec_dims[key] is not None}
+  axes = sorted(order.keys(), key=order.get)
+  axes += [dim for dim in range(vals_ndim+1) if dim not in order]
+  return prob[tuple(slices)].transpose(axes).reshape(reshape)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 5cbb93230cf9073ce3fbbb71719cc9798a812585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:40 +0000
Subject: [PATCH 109/146] fix: scale spherical deltas of fields by lengths of
 variables once

---
 probayes/field.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 496894a..d22b69d 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -504,9 +504,6 @@ class Field (NX_UNDIRECTED_GRAPH):
     delta = delta[0]
     spherise = self._spherise
     keys = self._spherise.keys()
-    rss = real_sqrt(np.sum(np.array(list(spherise.values()))**2))
-    if self._delta_kwds['scale']:
-      delta *= rss
     deltas = np.random.uniform(-delta, delta, size=len(spherise))
     rss_deltas = real_sqrt(np.sum(deltas ** 2.))
     deltas = (deltas * delta) / rss_deltas
@@ -519,7 +516,7 @@ class Field (NX_UNDIRECTED_GRAPH):
         val = deltas[idx]
         idx += 1
         if self._delta_kwds['scale']:
-          val *= self._lengths[i]
+          val *= spherise[key]
       delta_dict.update({key: val})
     delta = self._delta_type(**delta_dict)
     return delta
-- 
2.43.0


From 5f5861b2df46c50f55e86804744fb45a1ea9bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 110/146] fix: leave propositions and transitions of fields as
 they were if refused

---
 probayes/rf.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 0c7f76c..9d4ed2e 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -150,15 +150,15 @@ class RF (Field, Prob):
     :param *args: optional arguments to pass if prop is callable.
     :param **kwds: optional keywords to pass if prop is callable.
     """
+    deps = self._keylist if 'deps' not in kwds else kwds.pop('deps')
+    if prop is not None:
+      assert self._anystoch, \
+          "Cannot set field proposition without any random variables"
+      assert self._tran is None, \
+          "Cannot assign both proposition and transition probabilities"
+      prop = Expression(prop, *args, **kwds)
     self._prop = prop
-    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop('deps')
-    if self._prop is None:
-      return
-    assert self._anystoch, \
-        "Cannot set field proposition without any random variables"
-    assert self._tran is None, \
-        "Cannot assign both proposition and transition probabilities"
-    self._prop = Expression(self._prop, *args, **kwds)
+    self._prop_deps = deps
 
 #-------------------------------------------------------------------------------
   @property
@@ -174,6 +174,16 @@ class RF (Field, Prob):
     :param *args: optional arguments to pass if tran is callable.
     :param **kwds: optional keywords to pass if tran is callable.
     """
+    # Restore the previous transition and sampling functions if refused
+    previous = self._tran, self._sym_tran, self._tfun, self._tsteps
+    try:
+      self._set_tran(tran, *args, **kwds)
+    except Exception:
+      self._tran, self._sym_tran, self._tfun, self._tsteps = previous
+      raise
+
+  def _set_tran(self, tran=None, *args, **kwds):
+
     # Set transition function
     self._tran = tran
     self._sym_tran = False
@@ -254,6 +264,15 @@ class RF (Field, Prob):
     :param *args: arguments to pass to tfun functions
     :param **kwds: keywords to pass to tfun functions
     """
+    # Restore the previous sampling function if refused
+    previous = self._tfun, self._tsteps
+    try:
+      self._set_tfun(tfun, *args, **kwds)
+    except Exception:
+      self._tfun, self._tsteps = previous
+      raise
+
+  def _set_tfun(self, tfun=None, *args, **kwds):
     scipyobj = None if 'scipyobj' not in kwds else kwds['scipyobj']
     self._tfun = tfun 
     if self._tfun is None:
-- 
2.43.0


From 325ce1adf858a305a62799ab17883589b6597676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:44 +0000
Subject: [PATCH 111/146] fix: discard the sampling functions of superseded
 field transitions

---
 probayes/rf.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 9d4ed2e..454ac11 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -47,6 +47,7 @@ class RF (Field, Prob):
 
   # Private
   __def_prob = None   # Flag to denote prob is defaulted
+  _def_tfun = None   # Flag to denote tfun is provided by tran
   _cond_mod = None   # conditional RV index modulus
   __cond_cov = None  # conditional covariance matrix
 
@@ -175,16 +176,18 @@ class RF (Field, Prob):
     :param **kwds: optional keywords to pass if tran is callable.
     """
     # Restore the previous transition and sampling functions if refused
-    previous = self._tran, self._sym_tran, self._tfun, self._tsteps
+    previous = self._tran, self._sym_tran, self._tfun, self._tsteps, self._def_tfun
     try:
       self._set_tran(tran, *args, **kwds)
     except Exception:
-      self._tran, self._sym_tran, self._tfun, self._tsteps = previous
+      self._tran, self._sym_tran, self._tfun, self._tsteps, self._def_tfun = previous
       raise
 
   def _set_tran(self, tran=None, *args, **kwds):
 
-    # Set transition function
+    # Set transition function, discarding any tfun of that superseded
+    if self._def_tfun:
+      self.set_tfun()
     self._tran = tran
     self._sym_tran = False
     self._tsteps = None
@@ -225,6 +228,7 @@ class RF (Field, Prob):
       assert tran.ndim == 2, message
       assert np.all(np.array(tran.shape) == self._nvars), message
       self.set_tfun(np.linalg.cholesky(tran))
+      self._def_tfun = True
       assert self._tsteps is None, \
           "Setting tsteps not supported for covariance transitions"
       return
@@ -233,6 +237,7 @@ class RF (Field, Prob):
     elif self._tran.isscipy:
       scipyobj = self._tran.expr
       self.set_tfun(self._tran, scipyobj=scipyobj)
+      self._def_tfun = True
       return
 
     # Return for unit variable RFs
@@ -265,16 +270,17 @@ class RF (Field, Prob):
     :param **kwds: keywords to pass to tfun functions
     """
     # Restore the previous sampling function if refused
-    previous = self._tfun, self._tsteps
+    previous = self._tfun, self._tsteps, self._def_tfun
     try:
       self._set_tfun(tfun, *args, **kwds)
     except Exception:
-      self._tfun, self._tsteps = previous
+      self._tfun, self._tsteps, self._def_tfun = previous
       raise
 
   def _set_tfun(self, tfun=None, *args, **kwds):
     scipyobj = None if 'scipyobj' not in kwds else kwds['scipyobj']
     self._tfun = tfun 
+    self._def_tfun = False
     if self._tfun is None:
       return
     if 'tsteps' in kwds:
-- 
2.43.0


From 00a8172cec4684c567f05a45583790ec8e02f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:49 +0000
Subject: [PATCH 112/146] fix: restart conditional sampling from the first
 variable with new transitions

---
 probayes/rf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rf.py b/probayes/rf.py
index 454ac11..2347f90 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -182,6 +182,7 @@ class RF (Field, Prob):
     except Exception:
       self._tran, self._sym_tran, self._tfun, self._tsteps, self._def_tfun = previous
       raise
+    self._cond_mod = None
 
   def _set_tran(self, tran=None, *args, **kwds):
 
@@ -276,6 +277,7 @@ class RF (Field, Prob):
     except Exception:
       self._tfun, self._tsteps, self._def_tfun = previous
       raise
+    self._cond_mod = None
 
   def _set_tfun(self, tfun=None, *args, **kwds):
     scipyobj = None if 'scipyobj' not in kwds else kwds['scipyobj']
-- 
2.43.0


From af5dfaee160ec51a0ad9dab0891069e6b52e69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:30 +0000
Subject: [PATCH 113/146] fix: evaluate fields of one variable on the scale of
 the field

---
 probayes/rf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 2347f90..e7e0bfc 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -10,7 +10,7 @@ from probayes.prob import Prob
 from probayes.pd import PD
 from probayes.pd_utils import margcond_str
 from probayes.vtypes import isscalar, isunitsetint
-from probayes.pscales import iscomplex, prod_pscale
+from probayes.pscales import iscomplex, prod_pscale, rescale
 from probayes.rf_utils import rv_prod_rule, sample_cond_cov
 from probayes.expr import Expr
 from probayes.expression import Expression
@@ -345,7 +345,7 @@ class RF (Field, Prob):
     if self._prob is None or self.__def_prob:
       rvs = self._varlist
       if len(rvs) == 1 and rvs[0]._prob is not None:
-        prob = rvs[0].eval_prob(values[rvs[0].name])
+        prob = rescale(rvs[0].eval_prob(values[rvs[0].name]), rvs[0].pscale, self._pscale)
       else:
         prob, _ = rv_prod_rule(values, rvs=rvs, pscale=self._pscale)
       return prob
@@ -414,6 +414,8 @@ class RF (Field, Prob):
           (tfun is not None and tfun.callable):
         vals, dims, kwargs = var.eval_step(pred_vals[var.name], 
                                            succ_vals, reverse=reverse)
+        if 'cond' in kwargs:
+          kwargs['cond'] = rescale(kwargs['cond'], var.pscale, self._pscale)
         return vals, dims, kwargs
       raise ValueError("Transitional CDF calling requires callable tfun")
     else:
@@ -524,7 +526,7 @@ class RF (Field, Prob):
         return cond
       rvs = self._varlist
       if len(rvs) == 1 and rvs[0]._tran is not None:
-        return rvs[0].eval_tran(values, **kwargs)
+        return rescale(rvs[0].eval_tran(values, **kwargs), rvs[0].pscale, self._pscale)
       pred_vals = dict()
       succ_vals = dict()
       for key_, val in values.items():
@@ -559,7 +561,7 @@ class RF (Field, Prob):
     dims = dist.dims
     rvs = self._varlist
     if self._tran is None and len(rvs) == 1 and rvs[0].tran is not None:
-      prob = rvs[0].eval_tran(vals, reverse=True)
+      prob = rescale(rvs[0].eval_tran(vals, reverse=True), rvs[0].pscale, dist.pscale)
     else:
       symmetric = self._sym_tran or self._tran is None or \
                   not self._tran.callable or self._tran.isscipy
-- 
2.43.0


From 031725c266aa3e45432b0a819b8c4435e7abccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:33 +0000
Subject: [PATCH 114/146] fix: keep the scale and set of flat transitions
 defaulted to

---
 probayes/rv.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 4b5e2e6..a679c45 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -98,6 +98,7 @@ class RV (Variable, Prob):
     if self.__def_prob:
       self._prob = None
       self._default_prob()
+    self._redefault_tran()
 
 #-------------------------------------------------------------------------------
   @property
@@ -110,6 +111,7 @@ class RV (Variable, Prob):
     if self.__def_prob:
       self._prob = None
       self._default_prob()
+    self._redefault_tran()
 
 #-------------------------------------------------------------------------------
   @property
@@ -135,6 +137,7 @@ class RV (Variable, Prob):
       self._default_prob()
       return
     self.__def_prob = False
+    self._redefault_tran()
 
     # Check uncallable probabilities commensurate with self._vset
     if self._vset is not None and \
@@ -161,6 +164,23 @@ class RV (Variable, Prob):
 
     if self._prob is not None and not self.__def_prob:
       return
+    prob = self._uniform_prob()
+    super().set_prob(prob)
+    if self._tran is None or self.__def_tran:
+      self.set_tran(prob)
+      self.__def_tran = True
+    self.__def_prob = True
+
+#-------------------------------------------------------------------------------
+  def _redefault_tran(self):
+    """ Updates a defaulted transitional according to self._vset and pscale. """
+    if self._tran is not None and self.__def_tran:
+      self.set_tran(self._uniform_prob())
+      self.__def_tran = True
+
+#-------------------------------------------------------------------------------
+  def _uniform_prob(self):
+    """ Returns the uniform probability over self._vset. """
     prob = rescale(self._nlhv, 'log', self._pscale)
     if self._ufun is not None and self.no_ucov:
       derinv = self._ufun.derinv.expr
@@ -169,11 +189,7 @@ class RV (Variable, Prob):
       prob = prob + sympy.log(derinv) if self._logp else prob * derinv
       if not prob.free_symbols: # linear transformations leave it uniform
         prob = float(prob)
-    super().set_prob(prob)
-    if self._tran is None or self.__def_tran:
-      self.set_tran(prob)
-      self.__def_tran = True
-    self.__def_prob = True
+    return prob
 
 #-------------------------------------------------------------------------------
   def set_pfun(self, pfun=None, *args, **kwds):
@@ -210,6 +226,7 @@ class RV (Variable, Prob):
     # Recalibrate defaulted probabilities for floating point vtypes
     if self._vtype in VTYPES[float]:
       self._default_prob()
+      self._redefault_tran()
 
     # Assert pfun is unspecified
     assert self._ufun is None or self._pfun is None, \
-- 
2.43.0


From a694af39e1b17954405af16f6b0b85891f91a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:33 +0000
Subject: [PATCH 115/146] fix: scale deltas of fields by the current lengths of
 variables

---
 probayes/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/field.py b/probayes/field.py
index d22b69d..4adfb14 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -266,6 +266,9 @@ class Field (NX_UNDIRECTED_GRAPH):
         var.set_delta(self._delta[i], scale=scale, bound=bound)
       return
 
+    # Update the lengths used for scaling
+    self.eval_length()
+
     # Default scale and bound and check args
     if self._delta_args:
       assert len(self._delta_args) == 1, \
-- 
2.43.0


From 823556773cd1e2e71334ddd83fb7f9574c9442e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:34 +0000
Subject: [PATCH 116/146] fix: give steps without transitions probability one
 on every scale

---
 probayes/rf.py | 4 +---
 probayes/rv.py | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index e7e0bfc..9794a3f 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -17,8 +17,6 @@ from probayes.expression import Expression
 from probayes.cf import CF
 from probayes.cond_cov import CondCov
 
-DEFAULT_CONDITIONAL_PROBABILITY = {False: 1., True: 0.}
-
 #-------------------------------------------------------------------------------
 class RF (Field, Prob):
   """
@@ -519,7 +517,7 @@ class RF (Field, Prob):
   def eval_tran(self, values, **kwargs):
     if 'cond' in kwargs:
       return kwargs['cond']
-    cond = DEFAULT_CONDITIONAL_PROBABILITY[iscomplex(self._pscale)]
+    cond = rescale(1., 1., self._pscale)
     reverse = False if 'reverse' not in kwargs else kwargs['reverse']
     if self._tran is None:
       if self._tfun is not None: # tfun without tran means no cond. prob.
diff --git a/probayes/rv.py b/probayes/rv.py
index a679c45..2c34066 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -560,7 +560,7 @@ class RV (Variable, Prob):
 
     # TODO - distinguish between probabilistic and non-probabistic outputs
     if cond is None:
-      cond = 1.
+      cond = rescale(1., 1., self._pscale)
       for val in vals.values():
         if isinstance(val, np.ndarray):
           cond = cond * np.ones(val.shape, dtype=float)
-- 
2.43.0


From c0c7f8c419e217225dc8638eee10ed8f30415ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 117/146] fix: keep the numbers of steps of transitions and
 sampling functions apart

---
 probayes/rf.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 9794a3f..cc52d3c 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -39,6 +39,7 @@ class RF (Field, Prob):
   _tran = None       # Transitional proposition function
   _tfun = None       # CDF/IDF of transition function 
   _tsteps = None     # Number of steps per transitional modificiation
+  _tfun_tsteps = None # As above if specified with tfun instead of tran
   _cvars = None      # Conditional random variable sampling specification
   _sym_tran = None   # Flag for symmetrical transitional conditional functions
   _is_stochastic = True # Flag of whether stochastic
@@ -174,11 +175,13 @@ class RF (Field, Prob):
     :param **kwds: optional keywords to pass if tran is callable.
     """
     # Restore the previous transition and sampling functions if refused
-    previous = self._tran, self._sym_tran, self._tfun, self._tsteps, self._def_tfun
+    previous = self._tran, self._sym_tran, self._tsteps, \
+               self._tfun, self._tfun_tsteps, self._def_tfun
     try:
       self._set_tran(tran, *args, **kwds)
     except Exception:
-      self._tran, self._sym_tran, self._tfun, self._tsteps, self._def_tfun = previous
+      self._tran, self._sym_tran, self._tsteps, \
+          self._tfun, self._tfun_tsteps, self._def_tfun = previous
       raise
     self._cond_mod = None
 
@@ -269,11 +272,11 @@ class RF (Field, Prob):
     :param **kwds: keywords to pass to tfun functions
     """
     # Restore the previous sampling function if refused
-    previous = self._tfun, self._tsteps, self._def_tfun
+    previous = self._tfun, self._tfun_tsteps, self._def_tfun
     try:
       self._set_tfun(tfun, *args, **kwds)
     except Exception:
-      self._tfun, self._tsteps, self._def_tfun = previous
+      self._tfun, self._tfun_tsteps, self._def_tfun = previous
       raise
     self._cond_mod = None
 
@@ -281,10 +284,9 @@ class RF (Field, Prob):
     scipyobj = None if 'scipyobj' not in kwds else kwds['scipyobj']
     self._tfun = tfun 
     self._def_tfun = False
+    self._tfun_tsteps = None if 'tsteps' not in kwds else kwds.pop('tsteps')
     if self._tfun is None:
       return
-    if 'tsteps' in kwds:
-      self._tsteps = kwds.pop('tsteps')
 
     # Pass CF objects directly
     if isinstance(tfun, CF):
@@ -470,11 +472,12 @@ class RF (Field, Prob):
     # Determine keys distinguishing between default and custom specifications
     inp = self._tfun.ret_inp() # ?
     keys = list(succ_vals.keys()) if not inp else list(inp.keys())
-    if self._tsteps:
+    tsteps = self._tfun_tsteps or self._tsteps
+    if tsteps:
       if self._cond_mod is None:
         self._cond_mod = 0
-      keys = keys[self._cond_mod:(self._cond_mod+self._tsteps)]
-      self._cond_mod += self._tsteps
+      keys = keys[self._cond_mod:(self._cond_mod+tsteps)]
+      self._cond_mod += tsteps
       if self._cond_mod >= len(succ_vals):
         self._cond_mod = 0
 
-- 
2.43.0


From 2a993d645e89aceb64d7c1fd65ba41046fa55e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:29 +0000
Subject: [PATCH 118/146] fix: refuse to conditionalise variables with respect
 to themselves

---
 probayes/dependence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 941ea18..96fc66a 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -99,6 +99,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       if len(fields) > 2:
         for field in fields[1:-1]:
           leafs_vars += list(field.varlist)
+      assert not set(leafs_vars).intersection(roots_vars), \
+          "Cannot conditionalise variables with respect to themselves"
 
       # Add leafs then roots
       for var in leafs_vars:
-- 
2.43.0


From e67ff4469045e21cc0958e1118ba740d03b7a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 119/146] fix: refuse values of different sizes along one
 dimension of a distribution

---
 probayes/distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 5cbfedd..be4c7a1 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -181,6 +181,9 @@ class Distribution (NamedDict):
         else:
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
+        assert self._shape[self._dims[key]] in (None, val_size), \
+            "Size {} of values for key {} differs from others of dimension {}".\
+            format(val_size, key, self._dims[key])
         self._sizes.append(val_size)
         self._shape[self._dims[key]] = val_size
         vals_shape = np.copy(ones_ndim)
-- 
2.43.0


From aa2210a219641a75dbfb53189976cf2f2e5db4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 120/146] fix: subfields of random fields, and only of their
 members

---
 probayes/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 4adfb14..e418cee 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -598,6 +598,8 @@ class Field (NX_UNDIRECTED_GRAPH):
 
     :return: an Field including only those vertices
     """
+    from probayes.rf import RF
+    field_cls = RF if self._is_stochastic else Field
 
     # Convert to list
     if isinstance(vertices, tuple):
@@ -617,7 +619,9 @@ class Field (NX_UNDIRECTED_GRAPH):
       else:
         raise TypeError("Unrecognised vertex specification type: {}".format(
             type(vertex)))
-    return Field(*tuple(variables))
+    assert all([var in self._varlist for var in variables]), \
+        "Vertices must all be members of {}".format(self._name)
+    return field_cls(*tuple(variables))
 
 #-------------------------------------------------------------------------------
   def __call__(self, *args, **kwds):
-- 
2.43.0


From 6364bc0cec106e06ab5f8867e7eaf665d3b59342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 121/146] fix: refuse unrecognised variables among shared keys

---
 probayes/field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index e418cee..b1c40bc 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -339,9 +339,10 @@ class Field (NX_UNDIRECTED_GRAPH):
       else:
         seen_keys.append(key)
       if not pass_all:
-        assert seen_keys[-1] in self._keyset, \
-            "Unrecognised key {} among available Variables {}".format(
-                seen_keys[-1], self._keyset)
+        for seen_key in key.split(','):
+          assert seen_key in self._keyset, \
+              "Unrecognised key {} among available Variables {}".format(
+                  seen_key, self._keyset)
 
     # Default values
     def_val = None
-- 
2.43.0


From b11b288fc20aaaffb4701beb14a39b8820c5016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 122/146] fix: share dimensions of fields only among variables
 given together

---
 probayes/field.py | 67 ++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 44 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index b1c40bc..51dfb83 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -8,7 +8,7 @@ import numpy as np
 
 from probayes.variable import Variable
 from probayes.variable_utils import parse_as_str_dict
-from probayes.vtypes import isscalar, isunitsetint, issingleton, isdimensionless
+from probayes.vtypes import isscalar, isunitsetint, issingleton
 from probayes.pscales import real_sqrt
 from probayes.ops import and_op, or_op
 from probayes.expression import Expression
@@ -409,58 +409,37 @@ class Field (NX_UNDIRECTED_GRAPH):
         for i, subkey in enumerate(subkeys):
           values_ref[subkey] = [key, i]
 
+    # Evaluate values
+    vals = collections.OrderedDict()
+    for var in self._varlist:
+      key, index = values_ref[var.name]
+      val = values[key] if index is None else values[key][index]
+      if val is None or isinstance(val, set):
+        vals.update(var.evaluate(val))
+      else:
+        vals.update({var.name: val})
+
     # Share dimensions for joint variables and do not dimensionalise scalars
     ndim = min_dim
     dims = collections.OrderedDict({key: None for key in self._keylist})
-    seen_keys = set()
-    for i, key in enumerate(self._keylist):
-      new_dim = False
-      if values_ref[key][1] is None: # i.e. not shared
-        if not isdimensionless(values[key]):
-          dims[key] = ndim
-          new_dim = True
-        seen_keys.add(key)
-      elif key not in seen_keys:
-        val_ref = values_ref[key]
-        subkeys = val_ref[0].split(',')
-        for subkey in subkeys:
-          dims[subkey] = ndim
-          seen_keys.add(subkey)
-        if not isdimensionless(values[val_ref[0]][val_ref[1]]):
-          new_dim = True
-      if new_dim:
+    shared_dims = {}
+    for key in self._keylist:
+      if issingleton(vals[key]):
+        continue
+      ref = values_ref[key][0]
+      if ref not in shared_dims:
+        shared_dims.update({ref: ndim})
         ndim += 1
+      dims[key] = shared_dims[ref]
 
     # Reshape
     vdims = [dim for dim in dims.values() if dim is not None]
     ndims = max(vdims) + 1 if len(vdims) else 0
-    ones_ndims = np.ones(ndims, dtype=int)
-    vals = collections.OrderedDict()
-    for i, var in enumerate(self._varlist):
-      key = var.name
-      reshape = True
-      if key in values.keys():
-        vals.update({key: values[key]})
-        reshape = not np.isscalar(vals[key])
-        if vals[key] is None or isinstance(vals[key], set):
-          vals.update(var.evaluate(vals[key]))
-      else:
-        val_ref = values_ref[key]
-        vals_val = values[val_ref[0]][val_ref[1]]
-        if vals_val is None or isinstance(vals_val, set):
-          vals.update(var.evaluate(vals_val))
-        else:
-          vals.update({key: vals_val})
-      if reshape and not isscalar(vals[key]):
-        re_shape = np.copy(ones_ndims)
-        re_dim = dims[key]
-        re_shape[re_dim] = vals[key].size
+    for key, dim in dims.items():
+      if dim is not None:
+        re_shape = np.ones(ndims, dtype=int)
+        re_shape[dim] = vals[key].size
         vals[key] = vals[key].reshape(re_shape)
-    
-    # Remove dimensionality for singletons
-    for key in self._keylist:
-      if issingleton(vals[key]):
-        dims[key] = None
     return vals, dims
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 5a1aaeaf12688d8804679ab8262037cc5fa36aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 123/146] fix: look up values as a distribution whichever
 dimensions remain

---
 probayes/distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index be4c7a1..4d74adf 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -224,6 +224,9 @@ class Distribution (NamedDict):
           keylist.append(key)
           vals.update({key: self[key]})
           dims.update({key: self._dims[key]})
+      used = sorted(set([dim for dim in dims.values() if dim is not None]))
+      dims = {key: None if dim is None else used.index(dim) \
+              for key, dim in dims.items()}
       return Distribution(','.join(keylist), vals, dims=dims)
     seen_keys = set()
     for i, key in enumerate(self._keylist):
-- 
2.43.0


From 5b5d73d134ae0620965017a5959a0a6c80fb62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 124/146] fix: no conditional values for distributions without
 conditional variables

---
 probayes/pd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/pd.py b/probayes/pd.py
index 896bedf..e313d64 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -504,6 +504,8 @@ class PD (Distribution):
       assert values in ['marg', 'cond'], \
           "String call must be either 'marg' or 'cond'"
       dictionary = self.marg if values == 'marg' else self.cond
+      if not dictionary:
+        return collections.OrderedDict()
       return self.lookup(list(dictionary.keys()))
     assert isinstance(values, dict),\
         "Values must be dict type, not {}".format(type(values))
-- 
2.43.0


From 8e65af8b91e39e5c5678ca89bbe14c3f27ad4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:26 +0000
Subject: [PATCH 125/146] fix: score Hastings proposals of probabilities too
 small or great for linear scales

---
 probayes/sp_utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index c3f6653..edf9dc4 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -2,7 +2,7 @@
 
 import numpy as np
 from probayes.vtypes import isscalar
-from probayes.pscales import rescale, div_prob
+from probayes.pscales import rescale, div_prob, prod_rule, NEARLY_NEGATIVE_INF
 
 #-------------------------------------------------------------------------------
 def sample_generator(sp, sampler_id, *args, stop=None, **kwds):
@@ -50,18 +50,19 @@ def hastings_scores(opqr, pscale=None):
     return None
   else:
     assert isscalar(prop.prob), "Proposal probability non-scalar"
-    prop = rescale(prop.prob, prop.pscale, 1.)
-    if prop <= 0.:
+    if rescale(prop.prob, prop.pscale, 0.j) <= NEARLY_NEGATIVE_INF:
       return None
     if revp is None:
       return min(1., div_prob(succ.prob, pred.prob, 
                               succ.pscale, pred.pscale, pscale=1.))
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      revp = rescale(revp.prob, revp.pscale, 1.)
-      return min(1., div_prob(succ.prob, pred.prob, 
-                              succ.pscale, pred.pscale, pscale=1.) * \
-                     revp / prop)
+      # Combine ratios on their own scales to avoid underflow
+      ratio = div_prob(succ.prob, pred.prob, succ.pscale, pred.pscale)
+      ratio_prop = div_prob(revp.prob, prop.prob, revp.pscale, prop.pscale)
+      score, _ = prod_rule(ratio, ratio_prop, 
+                           pscales=[succ.pscale, revp.pscale], pscale=1.)
+      return min(1., score)
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From e94dec39b239e90c8ee6c621014d4d59d137408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:54 +0000
Subject: [PATCH 126/146] fix: read names of distributions in parentheses

---
 probayes/pd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index b78625c..58dccf3 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -31,10 +31,10 @@ def str_margcond(name=None):
   if lt_paren >= 0 or rt_paren >= 0:
     assert lt_paren >= 0 and rt_paren > lt_paren, \
       "Unmatched parenthesis in name"
-    marg_str = marg_str[lt_paren:1:rt_paren]
+    marg_str = marg_str[lt_paren+1:rt_paren]
   cond_str = ''
   if '|' in marg_str:
-    split_str = name.split('|')
+    split_str = marg_str.split('|')
     assert len(split_str) == 2, "Ambiguous name: {}".format(name)
     marg_str, cond_str = split_str
   marg_strs = []
-- 
2.43.0


From 7dc0f0214974dbf67b6bf4866ba1d721d8a29aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 127/146] fix: give the zeroth moment of distributions as one

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index e313d64..05448cb 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -384,7 +384,7 @@ class PD (Distribution):
     vals = collections.OrderedDict()
     for i, key in enumerate(self._keylist):
       if key in keys:
-        val = self[key] if not exponent else self[key]**exponent
+        val = self[key] if exponent is None else self[key]**exponent
         if self._aresingleton[i]:
           vals.update({key: val})
         else:
-- 
2.43.0


From af830a76241367a8e08d01f769b67e7f07f85142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 128/146] fix: marginalise logarithmic probabilities of minus
 infinity

---
 probayes/pd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/pd.py b/probayes/pd.py
index 05448cb..4b42d60 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -165,6 +165,7 @@ class PD (Distribution):
     # Offset log probabilities by their maxima to avoid underflow
     else:
       offs = np.max(prob, axis=axes, keepdims=True)
+      offs = np.where(offs > NEARLY_NEGATIVE_INF, offs, 0.)
       prob = rescale(np.sum(rescale(prob - offs, 0.j, 1.), axis=axes), 1., 0.j)
       prob = prob + np.squeeze(offs, axis=axes)
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
-- 
2.43.0


From 8a091450d9b27f747e50ce23ef77dd5f5d5a4fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 129/146] fix: match values and axes when multiplying repeated
 observations

---
 probayes/pd_utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 58dccf3..7058415 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -142,6 +142,20 @@ def product(*args, **kwds):
     assert marg_keys is not None and marg_sets is not None, \
       "Non-unique marginal variables for currently not supported: {}".\
       format(all_marg_keys)
+    assert np.all(marg_sets), \
+      "Only marginal sets can be shared by marginal variables: {}".\
+      format(all_marg_keys)
+
+    # Other variables must match in values and their probability axes aligned
+    for i, arg in enumerate(args[1:]):
+      for key, values in arg.items():
+        if isunitsetint(values) and isunitsetint(args[0][key]):
+          continue
+        if (arg.dims[key] is None) != (args[0].dims[key] is None) or \
+            np.size(values) != np.size(args[0][key]) or \
+            not np.allclose(np.ravel(values), np.ravel(args[0][key])):
+          raise ValueError("Mismatch in values for condition {}".format(key))
+      probs[i+1] = arg.redim(args[0].dims).prob
     maybe_fasttrack = True
 
   # Maybe fast-track identical conditionals
-- 
2.43.0


From 950a9ed3b321880b932765a7daaf5524986292ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 130/146] fix: refuse quotients of distributions whose values
 do not match

---
 probayes/pd.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 4b42d60..6e1d952 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -6,7 +6,7 @@ import numpy as np
 from probayes.named_dict import NamedDict
 from probayes.pd_utils import str_margcond, margcond_str, product, summate, \
                               rekey_dict, ismonotonic
-from probayes.vtypes import isscalar
+from probayes.vtypes import isscalar, isunitsetint
 from probayes.pscales import eval_pscale, rescale, iscomplex
 from probayes.pscales import div_prob, NEARLY_NEGATIVE_INF
 from probayes.distribution import Distribution
@@ -586,6 +586,23 @@ class PD (Distribution):
       assert marg_scalars == set(other.marg.keys()), \
         "For divisor singletons, scalar marginals must match"
 
+    # Assert values match along corresponding dimensions
+    dim_pairs = set()
+    for key, val in other.items():
+      assert key in self._keyset, \
+          "Key {} not in distribution {}".format(key, self._name)
+      dim_pairs.add((self._dims[key], other.dims[key]))
+      if isunitsetint(val) or isunitsetint(self[key]):
+        assert val == self[key], "Values for {} must match".format(key)
+      else:
+        assert np.size(val) == np.size(self[key]) and \
+            np.allclose(np.ravel(val), np.ravel(self[key])), \
+            "Values for {} must match".format(key)
+    for dims in zip(*dim_pairs):
+      assert len(set(dims)) == len(dim_pairs), "Dimensions must match"
+    assert all([(dims[0] is None) == (dims[1] is None) for dims in dim_pairs]), \
+        "Dimensions must match"
+
     # Prepare quotient marg and cond keys
     keys = other.marg.keys()
     marg = collections.OrderedDict(self._marg)
-- 
2.43.0


From 7706a20817562b2889502ce490787802b2460a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:11 +0000
Subject: [PATCH 131/146] fix: refuse products of distributions whose
 dimensions do not match

---
 probayes/pd_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 7058415..1b7e87f 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -305,7 +305,11 @@ def product(*args, **kwds):
       dims = collections.OrderedDict()
       for key, val in args[i].dims.items():
         if val is not None:
+          assert dims.get(val, prod_dims[key]) == prod_dims[key], \
+              "Mismatch in dimensions for variable {}".format(key)
           dims.update({val: prod_dims[key]})
+      assert len(set(dims.values())) == len(dims), \
+          "Mismatch in dimensions for variables {}".format(list(args[i].keys()))
       old_dims = []
       new_dims = []
       for key, val in dims.items():
-- 
2.43.0


From 91a2c6e90e2716449a3a442dd4e4b1578c5e32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 132/146] fix: keep the axes of parameters when a function
 multiplies repetitions itself

---
 probayes/rf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index cc52d3c..6cf5824 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -582,14 +582,18 @@ class RF (Field, Prob):
         max_dim = dim if max_dim is None else max(dim, max_dim)
 
     # If scalar or prob is expected shape then perform product here
-    if max_dim is None or max_dim == prob.ndim - 1:
+    if max_dim is None or max_dim == np.ndim(prob) - 1:
       dist = PD(dist_name, vals, dims=dims, prob=prob, pscale=self._pscale)
       return dist.prod(iid)
 
     # Otherwise it is left to the user function to perform the iid product
-    for key in iid:
-      vals[key] = {len(vals[key])}
-      dims[key] = None
+    iid_dims = set([dims[key] for key in iid if dims[key] is not None])
+    for key, dim in dims.items():
+      if key in iid:
+        vals[key] = {np.size(vals[key])}
+        dims[key] = None
+      elif dim is not None:
+        dims[key] = dim - sum([iid_dim < dim for iid_dim in iid_dims])
 
     # Tidy up probability
     return PD(dist_name, vals, dims=dims, prob=prob, pscale=self._pscale)
-- 
2.43.0


From 47fc234cdaa44b9881fb487bf787e23e318934b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 133/146] fix: default the dimensions when slicing by values

slice_by_keyvals documents that dimensions not given are guessed, but
the guess used a NumPy function that is gone and was never returned.
---
 probayes/rf_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index c24dc14..1cb6f46 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -93,12 +93,13 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if isscalar(val):
         dims.update({key: None})
       else:
-        assert val.size == np.product(vals.shape), \
+        assert val.size == np.prod(val.shape), \
             "Multiple non-singleton dimensions: {}".format(val.size)
         if val.size > 1:
           run_dim = np.argmax(val.shape)
         dims.update({key: run_dim})
         run_dim += 1
+    return dims
 
   # Default spec_dims and vals_dims if not given 
   if spec_dims is None:
-- 
2.43.0


From bd6ed1dea1af0a0752e22982c0fb007e248d0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 134/146] fix: accept symbolic distributions whose cumulative
 function cannot be solved

SymPy raises NotImplementedError for many distributions (Student's t,
chi-squared), for which setting the distribution failed altogether.
---
 probayes/sympy_prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 41752b0..703dc6a 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -164,7 +164,7 @@ class SympyProb:
       self.__icdf = sympy.Symbol(icdf_name)
       try:
         invexprs = sympy.solve(self._exprs['cdf'].expr - self.__icdf,  self._cterm)
-      except TypeError: # in case Sympy fails to solve the inverse
+      except (TypeError, NotImplementedError): # in case Sympy fails to solve the inverse
         invexprs = []
       n_exprs = len(invexprs)
       if n_exprs:
-- 
2.43.0


From a6c6191b6338a53b033183318fbe9ff9eddb0f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 135/146] fix: use only inverses of cumulative functions that
 invert them

Of the solutions found by SymPy the shortest was used even if it does
not hold (Gamma) or only over part of the range (Laplace), and so grids
and random values were NaN.
---
 probayes/sympy_prob.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 703dc6a..297be42 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -166,18 +166,41 @@ class SympyProb:
         invexprs = sympy.solve(self._exprs['cdf'].expr - self.__icdf,  self._cterm)
       except (TypeError, NotImplementedError): # in case Sympy fails to solve the inverse
         invexprs = []
-      n_exprs = len(invexprs)
-      if n_exprs:
-        invexpr = invexprs[0]
-        if n_exprs > 1:
-          for expr in invexprs[1:]:
-            if len(expr.__repr__()) < len(invexpr.__repr__()):
-              invexpr = expr
+      invexpr = self._eval_icdf(invexprs)
+      if invexpr is not None:
         self._exprs.update({'icdf': Expr(invexpr, remap={self._cterm.name: icdf_name})})
 
     # Set sampling function
     self._exprs.update({'sfun': functools.partial(sympy_sfun, self._distr)})
 
+#-------------------------------------------------------------------------------
+  def _eval_icdf(self, invexprs):
+    """ Returns the simplest solution in invexprs that inverts the CDF, or all 
+    combined if defined piecewise over different parts, or None if unavailable.
+    """
+    def inverts(invexpr):
+      if invexpr.free_symbols != {self.__icdf}: # symbolic parameters
+        return True
+      cdf = self._exprs['cdf'].expr
+      for level in [0.1, 0.5, 0.9]:
+        try:
+          value = invexpr.subs(self.__icdf, level).evalf()
+          if not np.isclose(complex(cdf.subs(self._cterm, value)), level):
+            return False
+        except TypeError: # includes comparison of complex values
+          return False
+      return True
+
+    invexprs = sorted(invexprs, key=lambda expr: len(expr.__repr__()))
+    if len(invexprs) > 1 and \
+        all([isinstance(expr, sympy.Piecewise) for expr in invexprs]):
+      parts = [arg for expr in invexprs for arg in expr.args if arg.expr != sympy.nan]
+      invexprs.append(sympy.Piecewise(*parts[:-1], (parts[-1].expr, True)))
+    for invexpr in invexprs:
+      if inverts(invexpr):
+        return invexpr
+    return None
+
 #-------------------------------------------------------------------------------
   def __getitem__(self, arg):
     """ Returns class member or partials dictionary object according to arg:
-- 
2.43.0


From 79bbc733beaf03e47ddabd8730b00e56f4b3d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:52 +0000
Subject: [PATCH 136/146] fix: flip booleans by list deltas with the
 probability given

A scalar boolean was flipped by other rules than an array, and a list
delta given to a field or process never flipped its booleans.
---
 probayes/variable.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index e133b41..fd3f7da 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -640,6 +640,8 @@ class Variable (Icon):
     if scale:
       assert np.isfinite(self._length), "Cannot scale by infinite length"
       delta *= self._length
+    if self._vtype in VTYPES[bool] and (orand or urand):
+      delta = (delta,) if orand else [delta] # randomised by apply_delta()
     return self._Delta(delta)
 
 #------------------------------------------------------------------------------- 
@@ -686,9 +688,12 @@ class Variable (Icon):
       if orand or urand:
         assert len(delta) == 1, "Tuple/list delta must contain one element"
         delta = delta[0]
-        if isscalar(values) or orand:
+        if orand:
           vals = values if delta > np.random.uniform() > 0.5 \
                  else np.logical_not(values)
+        elif isscalar(values):
+          vals = np.logical_not(values) if delta > np.random.uniform() \
+                 else values
         else:
           flip = delta > np.random.uniform(size=values.shape)
           vals = np.copy(values)
-- 
2.43.0


From 777721452c7183b8b00625c00555be181077165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:16 +0000
Subject: [PATCH 137/146] fix: bound displacements of variables by callables as
 specified

The keywords 'scale' and 'bound' were passed on to the callable contrary
to the documentation, so that fields could not contain any.
---
 probayes/variable.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index fd3f7da..69f99ee 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -401,6 +401,7 @@ class Variable (Icon):
     if self._delta is None:
       return
     elif callable(self._delta):
+      kwds = {key: val for key, val in kwds.items() if key not in ['scale', 'bound']}
       self._delta = Expression(self._delta, *args, **kwds)
       return
 
@@ -670,9 +671,8 @@ class Variable (Icon):
     if delta is None:
       delta = self._delta if self._vtype in VTYPES[bool] else self.eval_delta()
     if isinstance(delta, Expression):
-      if delta.callable:
-        return delta(values)
-      delta = delta()
+      if not delta.callable:
+        delta = delta()
     elif self._vtype not in VTYPES[bool]:
       if isinstance(delta, (list, tuple)):
         delta = self.eval_delta(delta)
@@ -681,8 +681,10 @@ class Variable (Icon):
     if delta is None:
       return values
 
-    # Apply the delta, treating bool as a special case
-    if self._vtype in VTYPES[bool]:
+    # Apply the delta, treating callables and bool as special cases
+    if isinstance(delta, Expression):
+      vals = delta(values)
+    elif self._vtype in VTYPES[bool]:
       orand = isinstance(delta, tuple)
       urand = isinstance(delta, list)
       if orand or urand:
@@ -706,7 +708,8 @@ class Variable (Icon):
     else:
       transformed_vals = self.ufun[0](values) + delta
       vals = self.ufun[1](transformed_vals)
-    vals = revtype(vals, self._vtype)
+    if not isinstance(delta, Expression):
+      vals = revtype(vals, self._vtype)
 
     # Apply bounds
     if bound is None:
-- 
2.43.0


From 8b279b76fb81236657b756749d0bebedf28a4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 138/146] fix: conditionalise log probabilities without
 underflow

---
 probayes/pd.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 6e1d952..8d3a174 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -269,17 +269,24 @@ class PD (Distribution):
         if key not in keys and key in self._marg.keys():
           sum_axes.add(dims[key])
     prob = np.moveaxis(self._prob, old_dims, new_dims)
-    if iscomplex(self._pscale) and (normalise or len(sum_axes)):
+    if not iscomplex(self._pscale):
+      prob = rescale(prob, self._pscale, 1.)
+      if normalise:
+        prob = div_prob(prob, np.sum(prob))
+      if len(sum_axes):
+        prob = div_prob(prob, \
+                           np.sum(prob, axis=tuple(sum_axes), keepdims=True))
+      prob = rescale(prob, 1., self._pscale)
+
+    # Divide log probabilities, offsetting by their maxima, to avoid underflow
+    elif normalise or len(sum_axes):
       axes = tuple(sum_axes) if len(sum_axes) else None
-      offs = np.max(prob, axis=axes, keepdims=True) # avoids underflow
-      prob = prob - np.where(offs > NEARLY_NEGATIVE_INF, offs, 0.)
-    prob = rescale(prob, self._pscale, 1.)
-    if normalise:
-      prob = div_prob(prob, np.sum(prob))
-    if len(sum_axes):
-      prob = div_prob(prob, \
-                         np.sum(prob, axis=tuple(sum_axes), keepdims=True))
-    prob = rescale(prob, 1., self._pscale)
+      logp = rescale(prob, self._pscale, 0.j)
+      offs = np.max(logp, axis=axes, keepdims=True)
+      logp = logp - np.where(offs > NEARLY_NEGATIVE_INF, offs, 0.)
+      sum_prob = np.sum(rescale(logp, 0.j, 1.), axis=axes, keepdims=True)
+      logp = div_prob(logp, rescale(sum_prob, 1., 0.j), 0.j, 0.j)
+      prob = rescale(logp, 0.j, self._pscale)
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 9ecf28a4386b9f28a2447240b05e88df9453386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 139/146] fix: remarginalise log probabilities without
 underflow

---
 probayes/pd.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 8d3a174..9af0e96 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -691,15 +691,21 @@ class PD (Distribution):
       shape.append(self._shape[dim])
       indices.append(np.ravel(np.indices(self._shape)[dim]))
 
-    # Iterate through every self.prob value
+    # Offset log probabilities by their maxima in each output to avoid underflow
     use_logp, prob = iscomplex(self._pscale), np.ravel(self._prob)
-    offs = np.max(prob) if use_logp else 0. # avoids underflow
-    offs = offs if offs > NEARLY_NEGATIVE_INF else 0.
-    rav_prob = rescale(prob - offs, 0.j if use_logp else self._pscale, 1.)
+    rem_idx = [tuple([idx[i] for idx in indices]) for i in range(self.size)]
+    offs = np.full(shape, NEARLY_NEGATIVE_INF if use_logp else 0., dtype=float)
+    if use_logp:
+      for i, idx in enumerate(rem_idx):
+        offs[idx] = max(offs[idx], prob[i])
+      offs = np.where(offs > NEARLY_NEGATIVE_INF, offs, 0.)
+      prob = prob - np.array([offs[idx] for idx in rem_idx])
+    rav_prob = rescale(prob, 0.j if use_logp else self._pscale, 1.)
+
+    # Iterate through every self.prob value
     rem_prob = np.zeros(shape, dtype=float)
-    for i in range(self.size):
-      rem_idx = tuple([idx[i] for idx in indices])
-      rem_prob[rem_idx] += rav_prob[i]
+    for i, idx in enumerate(rem_idx):
+      rem_prob[idx] += rav_prob[i]
 
     # Replace marginal keys and keep conditional keys
     rem_vals = collections.OrderedDict(distribution)
-- 
2.43.0


From 8ad302bd8e4cfbaf599b081dd9b40d3d10058208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:45 +0000
Subject: [PATCH 140/146] fix: store distributions over variables named order

---
 probayes/pd_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 1b7e87f..e7e9b68 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -485,7 +485,7 @@ def write_serialised(path, serialised, aux_dict={}):
           group_write[key] = np.array(len(attrs))
           group_write[key].attrs.update(attrs)
           if isinstance(attrs, collections.OrderedDict):
-            group_write[key].attrs.update({'order': list(attrs.keys())})
+            group_write[key].attrs.update({' order': list(attrs.keys())})
         else:
           if isinstance(val, np.ndarray):
             group_write[key] = val
@@ -514,8 +514,10 @@ def read_serialised(path):
         for key, val in group_read.items():
           if key == 'attrs':
             attrs = dict(val.attrs)
-            if 'order' in attrs:
-              order = attrs.pop('order')
+            # Variables may be named 'order', which was previously the key used
+            order_key = ' order' if ' order' in attrs else 'order'
+            if np.ndim(attrs.get(order_key)):
+              order = attrs.pop(order_key)
               ordered_dict = collections.OrderedDict()
               for ordered_key in order:
                 ordered_dict.update({ordered_key: attrs[ordered_key]})
-- 
2.43.0


From 060230c5cfe9cb223e6b7658f2f712645daf9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 141/146] fix: keep conditional normal draws far from the mean
 within the limits

---
 probayes/cond_cov.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index f2406c3..2cecbb8 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -53,10 +53,10 @@ class CondCov:
     dmu = np.delete(dmu, (idx), axis=0)
     mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
     stdv = self._stdv[idx]
-    lims = scipy.stats.norm.cdf(self._lims[idx], loc=mean, scale=stdv)
+    lims = (self._lims[idx] - mean) / stdv
     number = list(args[idx])[0]
-    cdf = uniform(lims[0], lims[1], number)
-    vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
+    cdf = uniform(0., 1., number)
+    vals = scipy.stats.truncnorm.ppf(cdf, lims[0], lims[1], loc=mean, scale=stdv)
     if not cond_pdf:
       return vals
     return vals, scipy.stats.norm.pdf(vals, loc=mean, scale=stdv)
-- 
2.43.0


From 2c8d60a9c5e16744ce01965f10b6f4d43919235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:35 +0000
Subject: [PATCH 142/146] fix: choose the inverse of symbolic transformations
 that recovers the variable set

---
 probayes/expression.py | 38 +++++++++++++++++++++++++++++---------
 probayes/variable.py   |  5 +++++
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 1804d52..fcc711a 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -8,6 +8,7 @@ import types
 import collections
 import functools
 import inspect
+import numpy as np
 import sympy
 from probayes.vtypes import isscalar
 from probayes.icon import isiconic
@@ -66,6 +67,7 @@ class Expression:
   __invertible = None
   __inverse = None
   __invexpr = None
+  __invexprs = None # All solutions for the inverse
   __derinv = None # derivative of value with respect to inverse
   __order = None
   __delta = None
@@ -167,6 +169,7 @@ class Expression:
     self.__delta = None
     self.__inverse = None
     self.__invexpr = None
+    self.__invexprs = None
     self.__derinv = None
     self.__invertible = False if 'invertible' not in kwds else \
                         self._kwds.pop('invertible')
@@ -327,15 +330,8 @@ class Expression:
           n_exprs = len(invexprs)
           assert n_exprs, "No invertible solutions for expression {}".format(
               self._expr)
-          invexpr = invexprs[0]
-          if n_exprs > 1:
-            for expr in invexprs[1:]:
-              if len(expr.__repr__()) < len(invexpr.__repr__()):
-                invexpr = expr
-          self.__invexpr = Expr(invexpr)
-          call = functools.partial(Expr.__call__, self.__invexpr)
-          self._partials.update({1: call})
-          self._partials.update({-1: call})
+          self.__invexprs = sorted(invexprs, key=lambda expr: len(expr.__repr__()))
+          self._set_invexpr(self.__invexprs[0])
       else:
         for key, val in self._exprs.items():
           call = functools.partial(Expr.__call__, val)
@@ -453,6 +449,30 @@ class Expression:
     #argsout = args; kwdsout = kwds; import pdb; pdb.set_trace() # debugging
     return expr(*tuple(args), **kwds)
 
+#-------------------------------------------------------------------------------
+  def _set_invexpr(self, invexpr):
+    self.__invexpr = Expr(invexpr)
+    call = functools.partial(Expr.__call__, self.__invexpr)
+    self._partials.update({1: call})
+    self._partials.update({-1: call})
+
+#-------------------------------------------------------------------------------
+  def sel_inverse(self, values):
+    """ If there is more than one solution for the inverse, this selects the
+    first real one that recovers the scalars in values (if any do). """
+    if not self.__invexprs or len(self.__invexprs) == 1:
+      return
+    outputs = [self._partials[0](float(value)) for value in values]
+    for invexpr in self.__invexprs:
+      if invexpr.has(sympy.I):
+        continue
+      inverses = [complex(invexpr.subs(self.__inverse, output)) \
+                  for output in outputs]
+      if np.allclose(inverses, values):
+        if invexpr != self.__invexpr.expr:
+          self._set_invexpr(invexpr)
+        return
+
 #-------------------------------------------------------------------------------
   def _partial_call(self, *args, **kwds):
     return self._call(*args, **kwds)
diff --git a/probayes/variable.py b/probayes/variable.py
index 69f99ee..18269e2 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -338,6 +338,11 @@ class Variable (Icon):
     # Floating point limits are subject to transformation
     self._ulims = self._vlims if self._ufun is None else \
                   self.ufun[0](self._vlims)
+    if self._ufun is not None and self._ufun.isiconic: # Select branch of inverse
+      lo, hi = min(self._vlims), max(self._vlims)
+      lo = lo if np.isfinite(lo) else (hi if np.isfinite(hi) else 0.) - 1.
+      hi = hi if np.isfinite(hi) else lo + 1.
+      self._ufun.sel_inverse([0.75*lo + 0.25*hi, 0.25*lo + 0.75*hi])
     self._isfinite = np.all(np.isfinite(self._ulims))
     self._length = max(self._ulims) - min(self._ulims)
     self._lhv = log_prob(self._length) if self._isfinite else np.inf
-- 
2.43.0


From c01dbaefc9577d33f3f2ff43846481eddcedd2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 143/146] fix: limit conditional normal draws of transformed
 variables by their sets

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 6cf5824..85d672d 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -301,7 +301,7 @@ class RF (Field, Prob):
 
     # Handle SciPy objects specifically
     elif scipyobj is not None:      
-      lims = np.array([rv.ulims for rv in self._varlist])
+      lims = np.array([rv.vlims for rv in self._varlist])
       mean = scipyobj.mean
       cov = scipyobj.cov
       self._cond_cov = CondCov(mean, cov, lims)
-- 
2.43.0


From 27f01536a068d612947b8131fb7e7a3395e66a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:22 +0000
Subject: [PATCH 144/146] fix: limit conditional draws of transformed variables
 by their sets

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 2c34066..10e9b8e 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -452,7 +452,7 @@ class RV (Variable, Prob):
             "Successor sampling only possible with scalar predecessors"
         succ_vals = list(succ_vals)[0]
         if type(succ_vals) in VTYPES[int]:
-          lo, hi = min(self._ulims), max(self._ulims)
+          lo, hi = min(self._vlims), max(self._vlims)
           kwds.update({self._name+"'": np.array([lo, hi], dtype=float)})
           lohi = self._tfun[0](**kwds)
           lo, hi = float(min(lohi)), float(max(lohi))
-- 
2.43.0


From 13ec3683dcc5d6afcf8c21241a55a6665d55c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:13 +0000
Subject: [PATCH 145/146] fix: evaluate paired constant transitions of
 variables

---
 probayes/rv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 10e9b8e..dd1d6dc 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -410,7 +410,7 @@ class RV (Variable, Prob):
       return pred, succ, dims
 
     #---------------------------------------------------------------------------
-    # Scalar treatment is the most trivial and ignores reverse
+    # Scalar treatment is the most trivial
     if self._tran is None or self._tran.isscalar:
       if isunitsetint(succ_vals):
         succ_vals = self.evaluate(succ_vals, use_pfun=False)[self._name]
@@ -424,7 +424,6 @@ class RV (Variable, Prob):
         if self._ufun is not None and not self.no_ucov:
           succ_vals = self.ufun[-1](succ_vals)
 
-      prob = self._tran() if self._tran is not None else None
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
                   
     # Handle discrete non-callables
@@ -488,9 +487,10 @@ class RV (Variable, Prob):
     if self._tran is None:
       pass
 
-    # Scalar treatment is the most trivial and ignores reverse
+    # Scalar treatment is the most trivial
     elif self._tran.isscalar:
-      prob = None if self._tran is None else self._tran()
+      prob = self._tran() if not self._tran.ismulti else \
+             self._tran[int(reverse)]()
       cond = uniform_prob(pred_vals,
                           succ_vals, 
                           prob=float(prob), 
-- 
2.43.0


From 1d15e1a103933a117ed555f8c996af93ca27c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 146/146] fix: propose the reverse of paired constant
 transitions

---
 probayes/rf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 85d672d..abd1b41 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -564,9 +564,11 @@ class RF (Field, Prob):
     if self._tran is None and len(rvs) == 1 and rvs[0].tran is not None:
       prob = rescale(rvs[0].eval_tran(vals, reverse=True), rvs[0].pscale, dist.pscale)
     else:
+      constant = self._tran is not None and self._tran.isscalar
       symmetric = self._sym_tran or self._tran is None or \
-                  not self._tran.callable or self._tran.isscipy
-      prob = dist.prob if symmetric else self._tran[1](vals)
+                  not (constant or self._tran.callable) or self._tran.isscipy
+      prob = dist.prob if symmetric else \
+             self._tran[1]() if constant else self._tran[1](vals)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
-- 
2.43.0

