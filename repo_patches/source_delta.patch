From 3950bf893ea22b0369af2ccee221b5e379493020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:57 +0000
Subject: [PATCH 01/25] fix: keep the canonical form true in
 LocalTensors.update

Negative indices, left-canonical tensors set inside the right-canonical part
(and vice versa) and canonical tensors on the outermost sites led to a wrong
or out-of-range canonical form.
---
 mpnum/mpstruct.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index add76d1..82c4a02 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -84,20 +84,24 @@ class LocalTensors(object):
         contrast to :func:`update`, this function only accepts a single index
         and NO slices.
         """
+        index = range(len(self._ltens))[index]  # Resolve negative values
         self._ltens[index] = tens
         # If a canonical tensor is set next to a slice in canonical form,
         # the size of the canonical slice will increase by one
         # (equality case; first argument to max/min). If a canoical
         # tensor is set inside a canoncial slice, its size will
         # remain the same (inequality case; second argument).
+        # The outermost site is never counted as canonical. A tensor which
+        # is not left-canonical (right-canonical) may decrease the size of
+        # the left-canonical (right-canonical) slice.
         if canonicalization == 'left' and self._lcanonical - index >= 0:
-            self._lcanonical = max(index + 1, self._lcanonical)
-        elif canonicalization == 'right' and index - self._rcanonical >= -1:
-            self._rcanonical = min(index, self._rcanonical)
+            self._lcanonical = min(max(index + 1, self._lcanonical),
+                                   len(self._ltens) - 1)
         else:
-            # If a non-canonical tensor is provided, the sizes of the
-            # canoical slices may decrease.
             self._lcanonical = min(index, self._lcanonical)
+        if canonicalization == 'right' and index - self._rcanonical >= -1:
+            self._rcanonical = max(min(index, self._rcanonical), 1)
+        else:
             self._rcanonical = max(index + 1, self._rcanonical)
 
     def update(self, index, tens, canonicalization=None):
-- 
2.43.0


From 3b34ba1bbd4162968ef4e48a2aecb2309bec0d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:13 +0000
Subject: [PATCH 02/25] fix: check number and bonds of tensors in slice updates
 of LocalTensors

Too few or too many tensors were silently cut off, a single canonicalization
value was taken as a sequence of characters and slices with a step could leave
inconsistent bond dimensions.
---
 mpnum/mpstruct.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 82c4a02..76a5e11 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -2,9 +2,6 @@
 """Core data structure & routines to manage local tensors"""
 from __future__ import absolute_import, division, print_function
 
-import itertools as it
-import collections
-
 from six.moves import range, zip
 
 
@@ -123,20 +120,23 @@ class LocalTensors(object):
 
         """
         if isinstance(index, slice):
-            indices = index.indices(len(self))
-            # In Python 3, we can do range(*indices).start etc. Python 2 compat:
-            start, stop, step = indices
+            indices = range(*index.indices(len(self)))
             # Allow rank changes if multiple consecutive local tensors change.
             tens = list(tens)
-            assert self[start].shape[0] == tens[0].shape[0]
+            assert len(tens) == len(indices)
+            new_ltens = list(self._ltens)
+            for ten, pos in zip(tens, indices):
+                new_ltens[pos] = ten
+            assert self._ltens[0].shape[0] == new_ltens[0].shape[0]
             assert all(t.shape[-1] == u.shape[0] for t, u in zip(
-                tens[:-1], tens[1:]))
-            assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
+                new_ltens[:-1], new_ltens[1:]))
+            assert self._ltens[-1].shape[-1] == new_ltens[-1].shape[-1]
 
-            if not isinstance(canonicalization, collections.Sequence):
-                canonicalization = it.repeat(canonicalization)
+            if canonicalization is None or isinstance(canonicalization, str):
+                canonicalization = (canonicalization,) * len(tens)
+            assert len(canonicalization) == len(tens)
 
-            for ten, pos, norm in zip(tens, range(*indices), canonicalization):
+            for ten, pos, norm in zip(tens, indices, canonicalization):
                 self._update(pos, ten, canonicalization=norm)
 
         else:
-- 
2.43.0


From 503775bc93f64179cec43471197c00ef934bdc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:13 +0000
Subject: [PATCH 03/25] fix: canonical form of leg2vleg

The site right of the new bond leg is not right-canonical in general.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f297d87..6c789cc 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -555,7 +555,7 @@ class MPArray(object):
         ltens[pos + 1] = ltens[pos + 1][0]
 
         lcanon, rcanon = self.canonical_form
-        new_normal_form = min(lcanon, pos), max(rcanon, pos + 1)
+        new_normal_form = min(lcanon, pos), max(rcanon, pos + 2)
         return MPArray(LocalTensors(ltens, cform=new_normal_form))
 
     def split(self, pos):
-- 
2.43.0


From 15225421364c0fee2f68790d29c7e93d56277f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:13 +0000
Subject: [PATCH 04/25] fix: scalar multiples do not claim the scaled site to
 be canonical

---
 mpnum/mparray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 6c789cc..0e91ead 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -372,7 +372,8 @@ class MPArray(object):
             ltens = self._lt
             ltens_new = it.chain(ltens[:lcanon], [fact * ltens[lcanon]],
                                  ltens[lcanon + 1:])
-            return type(self)(LocalTensors(ltens_new, cform=(lcanon, rcanon)))
+            return type(self)(LocalTensors(ltens_new, cform=(
+                lcanon, max(rcanon, lcanon + 1))))
 
         raise NotImplementedError("Multiplication by non-scalar not supported")
 
-- 
2.43.0


From 018e7123268a23fe004ecb2e295a6ad10634701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:54 +0000
Subject: [PATCH 05/25] fix: return copies from unary plus, group_sites(1) and
 trivial splits

In-place changes of the result changed the operand. Also, splitting after the
last site raised an IndexError instead of returning the whole chain.
---
 mpnum/mparray.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 0e91ead..079860d 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -394,7 +394,7 @@ class MPArray(object):
         return -1 * self
 
     def __pos__(self):
-        return self
+        return self.copy()
 
     def __truediv__(self, divisor):
         if np.isscalar(divisor):
@@ -494,7 +494,7 @@ class MPArray(object):
                              .format(len(self), sites_per_group))
 
         if sites_per_group == 1:
-            return self
+            return self.copy()
         ltens = [_ltens_to_array(self._lt[i:i + sites_per_group])
                  for i in range(0, len(self), sites_per_group)]
         return MPArray(ltens)
@@ -568,9 +568,9 @@ class MPArray(object):
 
         """
         if pos < 0:
-            return None, self
-        elif pos >= len(self):
-            return self, None
+            return None, self.copy()
+        elif pos >= len(self) - 1:
+            return self.copy(), None
 
         mpa_t = self.vleg2leg(pos)
         lnorm, rnorm = mpa_t.canonical_form
-- 
2.43.0


From d6c8e14247f512dedc548c36e363bf0b8323367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:54 +0000
Subject: [PATCH 06/25] fix: negative axes in MPArray.sum, axis_iter and diag

Negative leg numbers referred to bond legs. Also, sum() did not accept None for
the first site and axis_iter() dropped sites if too few axes were given.
---
 mpnum/mparray.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 079860d..d4c2446 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -300,8 +300,10 @@ class MPArray(object):
         """
         if not isinstance(axes, collections.Iterable):
             axes = it.repeat(axes, len(self))
+        axes = tuple(axes)
+        assert len(axes) == len(self)
 
-        ltens_iter = it.product(*(iter(np.rollaxis(lten, i + 1))
+        ltens_iter = it.product(*(iter(np.rollaxis(lten, range(1, lten.ndim - 1)[i]))
                                   for i, lten in zip(axes, self.lt)))
         return (MPArray(ltens) for ltens in ltens_iter)
 
@@ -433,13 +435,12 @@ class MPArray(object):
             if not hasattr(axes, '__iter__'):
                 axes = (axes,)  # Single integer
             axes = tuple(axes)
-            if len(axes) == 0 or not (axes[0] is not None
-                                      and hasattr(axes[0], '__iter__')):
+            if not any(ax is None or hasattr(ax, '__iter__') for ax in axes):
                 axes = it.repeat(axes)  # Sum over same physical legs everywhere
             else:
                 assert len(axes) == len(self)
         axes = (tuple(range(1, ndims + 1)) if ax is None
-                else tuple(a + 1 for a in ax)
+                else tuple(range(1, ndims + 1)[a] for a in ax)
                 for ax, ndims in zip(axes, self.ndims))
         out = type(self)(lt.sum(ax) if ax else lt
                          for ax, lt in zip(axes, self.lt))
@@ -1327,6 +1328,7 @@ def diag(mpa, axis=0):
     ndims = mpa.ndims[0]
     assert all(p == ndims for p in mpa.ndims)
 
+    axis = range(ndims)[axis]  # Resolve negative values
     slices = ((slice(None),) * (axis + 1) + (i,) for i in range(dim))
     mpas = [MPArray(ltens[s] for ltens in mpa.lt) for s in slices]
 
-- 
2.43.0


From 07007c3c2e6b190db0ad48744e5abf9a8618aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:54 +0000
Subject: [PATCH 07/25] fix: sums of arrays with different dtypes keep complex
 parts

block_diag() used the dtype of its first argument and the sum of MPArrays used
the largest dtype, which need not hold complex values.
---
 mpnum/mparray.py       | 2 +-
 mpnum/utils/extmath.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index d4c2446..440201b 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1854,7 +1854,7 @@ def _local_add(ltenss):
     newshape = (sum(lt.shape[0] for lt in ltenss), )
     newshape += shape[1:-1]
     newshape += (sum(lt.shape[-1] for lt in ltenss), )
-    res = np.zeros(newshape, dtype=max(lt.dtype for lt in ltenss))
+    res = np.zeros(newshape, dtype=np.result_type(*ltenss))
 
     pos_l, pos_r = 0, 0
     for lt in ltenss:
diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index c6480c8..56b7f67 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -90,7 +90,7 @@ def block_diag(summands, axes=(0, 1)):
 
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
-                   dtype=summands[0].dtype)
+                   dtype=np.result_type(*summands))
     startpos = np.zeros(nr_axes, dtype=int)
 
     for array, shape in zip(summands, shapes):
-- 
2.43.0


From 536727754bdaa67e98d193859304be6b5f246d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:54 +0000
Subject: [PATCH 08/25] fix: reject operands which do not fit instead of
 truncating them

Several functions combined sequences of different length with zip() or relied on
broadcasting and returned a result computed from a part of the input only.
---
 mpnum/factory.py       |  6 +++---
 mpnum/mparray.py       | 20 +++++++++++++++++---
 mpnum/mpsmpo.py        |  6 +++++-
 mpnum/special.py       |  1 +
 mpnum/utils/extmath.py |  2 ++
 5 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index 208ff9c..d7171c6 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -162,12 +162,12 @@ def _generate(sites, ldim, rank, func, force_rank):
     else:
         rank = tuple(rank)
 
-    if not force_rank:
-        rank = tuple(min(b1, b2) for b1, b2 in zip(rank, mp.full_rank(ldim)))
-
     assert len(ldim) == sites
     assert len(rank) == sites - 1
 
+    if not force_rank:
+        rank = tuple(min(b1, b2) for b1, b2 in zip(rank, mp.full_rank(ldim)))
+
     rank = (1,) + rank + (1,)
     ltens = (func((rank[n],) + tuple(ld) + (rank[n + 1],))
              for n, ld in enumerate(ldim))
diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 440201b..7faa144 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -351,6 +351,8 @@ class MPArray(object):
     def __add__(self, summand):
         assert len(self) == len(summand), \
             "Length is not equal: {} != {}".format(len(self), len(summand))
+        assert self.shape == summand.shape, \
+            "Shape is not equal: {} != {}".format(self.shape, summand.shape)
         if len(self) == 1:
             # The code below assumes at least two sites.
             return MPArray((self._lt[0] + summand.lt[0],))
@@ -469,7 +471,8 @@ class MPArray(object):
 
         newshapes = tuple(newshapes)
         if not isinstance(newshapes[0], collections.Iterable):
-            newshapes = it.repeat(newshapes, times=len(self))
+            newshapes = (newshapes,) * len(self)
+        assert len(newshapes) == len(self)
 
         ltens = [_local_reshape(lten, newshape)
                  for lten, newshape in zip(self._lt, newshapes)]
@@ -891,7 +894,7 @@ class MPArray(object):
                                dtype=self.dtype)
         else:
             compr = startmpa.copy()
-            assert all(d1 == d2 for d1, d2 in zip(self.shape, compr.shape))
+            assert self.shape == compr.shape
 
         # flatten the array since MPS is expected & bring back
         shape = self.shape
@@ -1170,7 +1173,10 @@ def sumup(mpas, weights=None):
     """
     mpas = list(mpas)
     length = len(mpas[0])
-    assert all(len(mpa) == length for mpa in mpas)
+    assert all(mpa.shape == mpas[0].shape for mpa in mpas)
+    if weights is not None:
+        weights = list(weights)
+        assert len(weights) == len(mpas)
 
     if length == 1:
         if weights is None:
@@ -1214,6 +1220,8 @@ def partialdot(mpa1, mpa2, start_at, axes=(-1, 0)):
     else:
         axes = tuple(ax + 1 if ax >= 0 else ax - 1 for ax in axes)
 
+    assert 0 <= start_at <= abs(len(mpa1) - len(mpa2)), \
+        "Shorter MPA does not fit at site {}".format(start_at)
     # Make the MPAs equal length (in fact, the shorter one will be
     # infinite length, but that's fine because we use zip()).
     shorter = mpa1 if len(mpa1) < len(mpa2) else mpa2
@@ -1250,6 +1258,8 @@ def inner(mpa1, mpa2):
     """
     assert len(mpa1) == len(mpa2), \
         "Length is not equal: {} != {}".format(len(mpa1), len(mpa2))
+    assert mpa1.shape == mpa2.shape, \
+        "Shape is not equal: {} != {}".format(mpa1.shape, mpa2.shape)
     ltens_new = (_local_dot(_local_ravel(l).conj(), _local_ravel(r), axes=(1, 1))
                  for l, r in zip(mpa1.lt, mpa2.lt))
     return _ltens_to_array(ltens_new)[0, ..., 0]
@@ -1272,6 +1282,7 @@ def sandwich(mpo, mps, mps2=None):
     (i.e. ``mp.inner(mps2, mp.dot(mpo, mps))``; see also :func:`dot()`).
 
     """
+    assert len(mpo) == len(mps) == len(mps2 or mps), "Length is not equal"
     # Fortunately, the contraction has been implemented already:
     arr = np.ones((1, 1, 1))
     for mpo_lt, mps_lt, mps2_lt in zip(mpo.lt, mps.lt, (mps2 or mps).lt):
@@ -1538,6 +1549,7 @@ def partialtrace(mpa, axes=(0, 1), mptype=None):
     """
     if axes[0] is not None and not isinstance(axes[0], collections.Iterable):
         axes = (axes,) * len(mpa)
+    assert len(axes) == len(mpa)
     # Prevent the user from accidentally tracing out bond legs
     assert all(ax is None or all(-n <= a < n for a in ax)
                for n, ax in zip(mpa.ndims, axes)), "Too few legs"
@@ -1766,6 +1778,8 @@ def local_sum(mpas, embed_tensor=None, length=None, slices=None):
     if slices is not None:
         assert length is not None
         slices = tuple(slices)
+        mpas = tuple(mpas)
+        assert len(mpas) == len(slices)
         reg = regular_slices(length, slices[0].stop - slices[0].start, offset=1)
         if all(s == t for s, t in zip_longest(slices, reg)):
             slices = None
diff --git a/mpnum/mpsmpo.py b/mpnum/mpsmpo.py
index 337935d..8c944ef 100644
--- a/mpnum/mpsmpo.py
+++ b/mpnum/mpsmpo.py
@@ -151,10 +151,14 @@ def _check_reductions_args(nr_sites, width, startsites, stopsites):
             startsites = range(nr_sites - width + 1)
         else:
             startsites = tuple(startsites)  # Allow iterables
-        stopsites = (start + width for start in startsites)
+        stopsites = tuple(start + width for start in startsites)
     else:
         assert width is None
         assert startsites is not None
+        startsites, stopsites = tuple(startsites), tuple(stopsites)
+    assert len(startsites) == len(stopsites)
+    assert all(0 <= start < stop <= nr_sites
+               for start, stop in zip(startsites, stopsites))
     return startsites, stopsites
 
 
diff --git a/mpnum/special.py b/mpnum/special.py
index 8ee5d3d..89ac30c 100644
--- a/mpnum/special.py
+++ b/mpnum/special.py
@@ -24,6 +24,7 @@ def inner_prod_mps(mpa1, mpa2):
     :returns: <mpa1|mpa2>
 
     """
+    assert len(mpa1) == len(mpa2)
     assert all(rank == 1 for rank in mpa1.ranks)
     assert all(dim == 1 for dim in mpa1.ndims)
     assert all(dim == 1 for dim in mpa2.ndims)
diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index 56b7f67..fd6b07a 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -87,6 +87,8 @@ def block_diag(summands, axes=(0, 1)):
     axes_order += [i for i in range(summands[0].ndim)
                    if i not in axes]
     summands = [array.transpose(axes_order) for array in summands]
+    assert all(array.shape[nr_axes:] == summands[0].shape[nr_axes:]
+               for array in summands)
 
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
-- 
2.43.0


From 4deaecd5001ce08851a91f0c82357619fda4bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:54 +0000
Subject: [PATCH 09/25] fix: random_local_ham ignored its random state

---
 mpnum/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index d7171c6..8901961 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -416,7 +416,8 @@ def random_local_ham(sites, ldim=2, intlen=2, randstate=None):
 
     """
     def get_local_ham():
-        op = _random_op(intlen, ldim, hermitian=True, normalized=True)
+        op = _random_op(intlen, ldim, randstate=randstate, hermitian=True,
+                        normalized=True)
         op = global_to_local(op, sites=intlen)
         return mp.MPArray.from_array(op, ndims=2)
 
-- 
2.43.0


From 0b7ad9c29b5e84af905e1453277c0016f434adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:54 +0000
Subject: [PATCH 10/25] fix: loading of MPArrays with current versions of h5py

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 7faa144..0c9991f 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -182,7 +182,7 @@ class MPArray(object):
             with h5py.File(source, 'r') as infile:
                 return cls.load(infile)
 
-        ltens = [source[str(i)].value for i in range(source.attrs['len'])]
+        ltens = [source[str(i)][()] for i in range(source.attrs['len'])]
         return cls(LocalTensors(ltens, cform=source.attrs['canonical_form']))
 
     @classmethod
-- 
2.43.0


From f47a29002566c9e54bf6c7793b4499bbe9a4e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:27 +0000
Subject: [PATCH 11/25] fix: hand eps on in MPPovmList.est_lfun and
 MPPovm.est_pmf_from

---
 mpnum/povm/mppovm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 66004b4..c03e5fe 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -1119,7 +1119,7 @@ class MPPovm(mp.MPArray):
         assert len(self) == len(other)
         n_samples = samples.shape[0]
         assert samples.shape[1] == len(other.nsoutdims)
-        match, prefactors = self.match_elems(other)
+        match, prefactors = self.match_elems(other, eps=eps)
         other_support = tuple(
             pos for pos, (sdim, odim) in enumerate(
                 (sdim, odim) for sdim, odim in zip(self.outdims, other.outdims)
@@ -1432,7 +1432,7 @@ class MPPovmList:
         assert len(self.mpps) == len(funs)
         assert len(self.mpps) == len(samples)
         est, var = zip(*(
-            mpp.est_lfun(c, f, sam)
+            mpp.est_lfun(c, f, sam, eps=eps)
             for mpp, c, f, sam in zip(self.mpps, coeff, funs, samples)))
         return sum(est), sum(var)
 
-- 
2.43.0


From 378e2352e2085bc9af4b7c34207c11141c40963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:27 +0000
Subject: [PATCH 12/25] fix: MPPovmList.pmfs_as_array requires one state per
 MP-POVM

---
 mpnum/povm/mppovm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index c03e5fe..02fe4b7 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -1315,6 +1315,8 @@ class MPPovmList:
 
     def pmfs_as_array(self, states, mode, asarray=False, eps=1e-10):
         """.. todo:: Add docstring"""
+        states = tuple(states)
+        assert len(states) == len(self.mpps)
         pmfs = (mpp.pmf_as_array(state, mode, eps)
                 for mpp, state in zip(self.mpps, states))
         if asarray:
-- 
2.43.0


From 1d63e4d09e2af16a1f14651050e1f12c4a14f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:40 +0000
Subject: [PATCH 13/25] fix: sparse_cH accepts the cyclic term as square array

As documented, all terms can be given as square arrays or MPOs.
---
 mpnum/utils/physics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/utils/physics.py b/mpnum/utils/physics.py
index dc2550d..1a98754 100644
--- a/mpnum/utils/physics.py
+++ b/mpnum/utils/physics.py
@@ -112,6 +112,8 @@ def sparse_cH(terms, ldim=2):
         H += sp.kron(left, sp.kron(term, right))
     # The last term acts on the first and last site.
     cyc = terms[-1]
+    if not hasattr(cyc, 'lt'):
+        cyc = mp.MPArray.from_array_global(cyc.reshape((ldim,) * 4), ndims=2)
     middle = sp.eye(ldim**pos)
     for i in range(cyc.ranks[0]):
         H += sp.kron(cyc.lt[0][0, ..., i], sp.kron(middle, cyc.lt[1][i, ..., 0]))
-- 
2.43.0


From 7190ddb4c045b694cc23fa48b42f0140020e46a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:37 +0000
Subject: [PATCH 14/25] fix: variational compression of single precision arrays

---
 mpnum/mparray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 0c9991f..fa4a825 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -890,8 +890,9 @@ class MPArray(object):
 
         if startmpa is None:
             from mpnum.factory import random_mpa
+            # random_mpa() supports only double precision
             compr = random_mpa(len(self), self.shape, rank, randstate=randstate,
-                               dtype=self.dtype)
+                               dtype=np.result_type(self.dtype, np.float_).type)
         else:
             compr = startmpa.copy()
             assert self.shape == compr.shape
-- 
2.43.0


From fd2e0223a9c8aa539dd4963c9ce98250a0195e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 15/25] fix: variational compression always checks the shape of
 startmpa

---
 mpnum/mparray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index fa4a825..653a190 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -871,6 +871,9 @@ class MPArray(object):
         Parameters and return value: See :func:`~compression()`.
 
         """
+        if startmpa is not None:
+            assert self.shape == startmpa.shape
+
         if len(self) == 1:
             # Cannot do anything. We make a copy, see below.
             copy = self.copy()
@@ -895,7 +898,6 @@ class MPArray(object):
                                dtype=np.result_type(self.dtype, np.float_).type)
         else:
             compr = startmpa.copy()
-            assert self.shape == compr.shape
 
         # flatten the array since MPS is expected & bring back
         shape = self.shape
-- 
2.43.0


From 18095f53fda05d86864a5cf1bb5cea64e89e59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 16/25] fix: dot and partialdot never contract bond legs

---
 mpnum/mparray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 653a190..fae3e46 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1841,6 +1841,11 @@ def _local_dot(ltens_l, ltens_r, axes):
     clegs_r = len(axes[1]) if isinstance(axes[0], collections.Sequence) else 1
     assert clegs_l == clegs_r, \
         "Number of contracted legs differ: {} != {}".format(clegs_l, clegs_r)
+    # Prevent the user from accidentally contracting bond legs
+    for ltens, axs in ((ltens_l, axes[0]), (ltens_r, axes[1])):
+        for ax in axs if isinstance(axs, collections.Sequence) else (axs,):
+            assert 1 <= (ax if ax >= 0 else ax + ltens.ndim) <= ltens.ndim - 2, \
+                "Cannot contract over axes {}: no such physical leg".format(axes)
     res = np.tensordot(ltens_l, ltens_r, axes=axes)
     # Rearrange the virtual-dimension legs
     res = np.rollaxis(res, ltens_l.ndim - clegs_l, 1)
-- 
2.43.0


From a747a5b5b19304a597ff6502b3e54cfddedb972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 17/25] fix: negative axes in transpose refer to physical legs

---
 mpnum/mparray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index fae3e46..4298151 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1924,7 +1924,8 @@ def _local_transpose(ltens, axes=None):
     if axes is None:
         axes = tuple(it.chain((0,), reversed(range(1, last)), (last,)))
     else:
-        axes = tuple(it.chain((0,), (ax + 1 for ax in axes), (last,)))
+        legs = range(1, last)
+        axes = tuple(it.chain((0,), (legs[ax] for ax in axes), (last,)))
     return np.transpose(ltens, axes=axes)
 
 
-- 
2.43.0


From 99b78dc00e509228fb90dd100a298d238a04f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 18/25] fix: partialtrace requires exactly two legs per site

---
 mpnum/mparray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 4298151..aa4531f 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1556,6 +1556,8 @@ def partialtrace(mpa, axes=(0, 1), mptype=None):
     # Prevent the user from accidentally tracing out bond legs
     assert all(ax is None or all(-n <= a < n for a in ax)
                for n, ax in zip(mpa.ndims, axes)), "Too few legs"
+    assert all(ax is None or len(ax) == 2 for ax in axes), \
+        "Need exactly two legs per trace"
     axes = (None if axesitem is None else tuple(ax + 1 if ax >= 0 else ax - 1
                                                 for ax in axesitem)
             for axesitem in axes)
-- 
2.43.0


From df4ff65994d00e9ea5c0a9c976a56564fbc37323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 19/25] fix: reductions_pmps requires two legs per site

---
 mpnum/mpsmpo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mpsmpo.py b/mpnum/mpsmpo.py
index 8c944ef..688d8a7 100644
--- a/mpnum/mpsmpo.py
+++ b/mpnum/mpsmpo.py
@@ -299,6 +299,7 @@ def reductions_pmps(pmps, width=None, startsites=None, stopsites=None):
     """
     startsites, stopsites = \
         _check_reductions_args(len(pmps), width, startsites, stopsites)
+    assert_array_equal(pmps.ndims, 2)
 
     for start, stop in zip(startsites, stopsites):
         pmps.canonicalize(left=start, right=stop)
-- 
2.43.0


From bffdf4d24f2f2be26415fc43170787b232617718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 20/25] fix: MPPovm.embed rejects negative positions

---
 mpnum/povm/mppovm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 02fe4b7..1deee66 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -295,7 +295,8 @@ class MPPovm(mp.MPArray):
                      else (local_dim,) * nr_sites)
         assert len(local_dim) == nr_sites
         n_right = nr_sites - len(self) - startsite
-        assert n_right >= 0, "Embedding position not possible"
+        assert startsite >= 0 and n_right >= 0, \
+            "Embedding position not possible"
 
         factors = []
         if startsite > 0:
-- 
2.43.0


From b489a1d677824831f8ec4034c85885c642a7f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 21/25] fix: localpovm.concat requires one weight per POVM

---
 mpnum/povm/localpovm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/povm/localpovm.py b/mpnum/povm/localpovm.py
index 462eeb1..118bea7 100644
--- a/mpnum/povm/localpovm.py
+++ b/mpnum/povm/localpovm.py
@@ -170,6 +170,8 @@ def concat(povms, weights, info_complete=False):
     :returns: POVM
 
     """
+    povms, weights = tuple(povms), tuple(weights)
+    assert len(povms) == len(weights)
     assert_almost_equal(sum(weights), 1.0)
     elements = sum(([weight * elem for elem in povm]
                     for povm, weight in zip(povms, weights)), [])
-- 
2.43.0


From 49aa74cf45808eddd41e1c271392fd079b696849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 22/25] fix: special.sumup requires summands of the same shape

---
 mpnum/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/special.py b/mpnum/special.py
index 89ac30c..674ec32 100644
--- a/mpnum/special.py
+++ b/mpnum/special.py
@@ -69,7 +69,7 @@ def sumup(mpas, rank, weights=None, svdfunc=truncated_svd):
     nr_summands = len(mpas)
     weights = weights if weights is not None else np.ones(nr_summands)
 
-    assert all(len(mpa) == length for mpa in mpas)
+    assert all(mpa.shape == mpas[0].shape for mpa in mpas)
     assert len(weights) == len(mpas)
 
     if length == 1:
-- 
2.43.0


From 76946dda7e98f2217819baf233d6cf95480aa5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:48 +0000
Subject: [PATCH 23/25] fix: MPPovmList.lfun_from truncated fractional
 other_weights to integers

---
 mpnum/povm/mppovm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 1deee66..048c9b6 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -985,7 +985,8 @@ class MPPovm(mp.MPArray):
         """
         assert coeff.shape == self.nsoutdims
         n_nsout = len(self.nsoutdims)
-        myout_n_samples = np.zeros(self.nsoutdims, int)
+        # `n_samples` may contain fractional weights
+        myout_n_samples = np.zeros(self.nsoutdims, float)
         fun_mpp = []
         fun_myout = []
         fun_coeff = []
-- 
2.43.0


From 377c625c6fe8a263168e80c8c3f7768a4e30d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:36 +0000
Subject: [PATCH 24/25] fix: eig_sum accepts real and complex summands in any
 order

---
 mpnum/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/linalg.py b/mpnum/linalg.py
index f590b59..c6fbd7f 100644
--- a/mpnum/linalg.py
+++ b/mpnum/linalg.py
@@ -341,9 +341,9 @@ def _eig_sum_minimize_locally(
     op = 0
     for mpa, ndims, lv, rv in zip(mpas, mpas_ndims, leftvec, rightvec):
         if ndims == 2:
-            op += _eig_local_op(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op(lv, list(mpa.lt[pos]), rv)
         elif ndims == 1:
-            op += _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
         else:
             raise ValueError('ndims = {!r} not supported'.format(ndims))
 
-- 
2.43.0


From a3a36ed698f7a72e29391eb458e207fda12f8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:34 +0000
Subject: [PATCH 25/25] fix: MPArray.pad_ranks with the default rank raised
 ValueError on a single site

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index aa4531f..28bbb23 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1010,7 +1010,7 @@ class MPArray(object):
 
         """
         if rank is None:
-            rank = max(self.ranks)
+            rank = max(self.ranks) if len(self) > 1 else 1
         ranks = it.repeat(rank)
         if not force_rank:
             ranks = [min(f, b) for f, b in zip(full_rank(self.shape), ranks)]
-- 
2.43.0

