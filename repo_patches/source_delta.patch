From bf32360e8f55d0798312bb3c388a546c3521e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 01/12] fix: report contradictory rows instead of dropping them
 in elimination

A row whose columns all cancel but whose right-hand side does not (0 = n)
was silently removed, so solve_question returned rows that violate A x = b.
---
 srg/gauss_elim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index d2b1726..c6bd050 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -6,6 +6,10 @@ from . import srg
 
 
 def _remove_zerokeys(h: list) -> None:
+    for k, i, v in h:
+        if k == 0 and v != 0:
+            raise srg.NoSolution(f'row {i} reads 0 = {v}')
+
     hnz = [(k, i, v) for k, i, v in h if k > 0]
     h.clear()
     h += hnz
-- 
2.43.0


From 084ee9316c651bb695b50c8acd1e71c0c8c08203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 02/12] fix: never split a quota into more than there is

fork.enum yielded pairs with a negative remainder when the bound of the
split position exceeds the quota.
---
 srg/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/fork.py b/srg/fork.py
index e53d332..e2ea2a7 100644
--- a/srg/fork.py
+++ b/srg/fork.py
@@ -19,7 +19,7 @@ def enum(quota: int, bounds: np.array, loc: int):
     m, bounds_rest = _pop_ele(bounds, loc)
 
     start_from = max(0, quota - bounds_rest.sum())
-    for quota_used in range(start_from, m + 1):  # q = 0,1,2
+    for quota_used in range(start_from, min(m, quota) + 1):  # q = 0,1,2
         quota_rest = quota - quota_used
         yield quota_used, quota_rest
 
-- 
2.43.0


From e9ddf6d6e6529c12149d74f41ce1e978071819bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 03/12] fix: python -m srg.database fails on a module that does
 not exist

util.assert_arg is utils.assert_srg.
---
 srg/database/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srg/database/__main__.py b/srg/database/__main__.py
index 445980e..c3b3916 100644
--- a/srg/database/__main__.py
+++ b/srg/database/__main__.py
@@ -1,5 +1,5 @@
 from srg.database import list_problems, get_solutions, draw
-from srg import util
+from srg import utils
 import sys
 from pprint import pprint
 
@@ -17,7 +17,7 @@ except ValueError:
 if v is None:
     pprint(list_problems())
 else:
-    util.assert_arg(v,k,l,u)
+    utils.assert_srg(v,k,l,u)
     if cmd == 'list':
         pprint(get_solutions(v,k,l,u))
     elif cmd == 'draw':
-- 
2.43.0


From f70c7bfc39edcb3183e824e1cc18285093f6c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 04/12] fix: exact determinant of conference graphs

The float product of irrational eigenvalues is off by rounding once the
determinant exceeds 2**53 (first at 37 18 8 9).
---
 srg/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srg/utils.py b/srg/utils.py
index 8370ccc..0abd09a 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -22,6 +22,10 @@ def conference(v: int, k: int, l: int, u: int):
     return 2 * k + (v - 1) * (l - u)
 
 def determinant(v: int, k: int, l: int, u: int):
+    if conference(v, k, l, u) == 0:
+        # the two irrational eigenvalues multiply to u - k and have the same multiplicity
+        return k * (u - k) ** ((v - 1) // 2)
+
     prod = 1
     for e, m in eig(v, k, l, u):
         prod *= e ** m
-- 
2.43.0


From 25b893088c2552510d023366a1c739672eb4d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 05/12] fix: encode rows and columns exactly from 64 columns or
 rows on

---
 srg/gauss_elim.py | 5 +++--
 srg/unique.py     | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index c6bd050..f0405b0 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -91,9 +91,10 @@ def _encode(A: np.array, b: np.array) -> list:
     R, C = A.shape
     assert b.size == R, f'{b.size} != {R}'
 
-    _sum = A[:, -1].copy().astype(int)
+    # Python integers: C columns need C bits, which int64 does not have from 64 columns on
+    _sum = A[:, -1].astype(object)
     for c in reversed(range(C - 1)):
-        delta = A[:, c].astype(int) << (C - 1 - c)
+        delta = A[:, c].astype(object) << (C - 1 - c)
         _sum += delta
 
     return list(zip(_sum, range(R), b))
diff --git a/srg/unique.py b/srg/unique.py
index 4240a68..a65dda5 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -10,10 +10,10 @@ def _encode(A: np.array) -> list:
                   [1, 1, 0, 0, 1, 1, 0],
                   [1, 1, 1, 1, 1, 1, 1]], dtype=np.int8)
     :param A:
-    :return: array([7, 7, 5, 5, 3, 3, 1], dtype=int16)
+    :return: array([7, 7, 5, 5, 3, 3, 1], dtype=object)
     '''
     R, C = A.shape
-    _A = A.astype(int)
+    _A = A.astype(object)  # Python integers: R rows need R bits
     _sum = _A[-1, :]
     for r in reversed(range(R - 1)):
         _sum += _A[r, :] << (R - 1 - r)
-- 
2.43.0


From 79d18a46fbc41312451f5f29cc5dbc9c1d4102c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 06/12] fix: hold degrees and counts beyond 127 (int8
 overflowed)

---
 srg/srg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/srg/srg.py b/srg/srg.py
index 3beb61a..ac2b311 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -4,10 +4,10 @@
 import numpy as np
 from functools import partial
 
-array = partial(np.array, dtype=np.int8)
-ones = partial(np.ones, dtype=np.int8)
-zeros = partial(np.zeros, dtype=np.int8)
-identity = partial(np.identity, dtype=np.int8)
+array = partial(np.array, dtype=int)
+ones = partial(np.ones, dtype=int)
+zeros = partial(np.zeros, dtype=int)
+identity = partial(np.identity, dtype=int)
 
 class NoSolution(Exception): pass
 
@@ -122,7 +122,7 @@ class Question:
             0	[0 0]
             x=	[? ?]_(2x1)
             bnd	[4 4]	quota=sum(x)=8
-            Answer(value=array([ 0, -1,  0,  0, -1], dtype=int8),
+            Answer(value=array([ 0, -1,  0,  0, -1]),
                 location=array([ 0,  4,  8, 12, 16]), len=20)
         '''
 
-- 
2.43.0


From 5af6577da60757ddc186da5d1369c00004a33feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 07/12] fix: maximise graphs whose first vertex is adjacent to
 all others

---
 srg/sorter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/sorter.py b/srg/sorter.py
index b547696..de78b48 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -16,6 +16,8 @@ class AdjMat:
 
     def sort(self):
         first_zero_index = self._sort(0, (1, self.v))
+        if first_zero_index is None:  # no zero: all columns are ones
+            first_zero_index = self.v
         si = SortInstruct(row=0, colrange=(1, self.v), div_index=first_zero_index)
         q = deque()
         q.append(si)
-- 
2.43.0


From 118f64b51df5e694e391f78624a3883a8b78a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 08/12] fix: print matrices of more than 31 vertices in full

---
 srg/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/__main__.py b/srg/__main__.py
index aec011f..552e9bf 100644
--- a/srg/__main__.py
+++ b/srg/__main__.py
@@ -7,10 +7,12 @@ from . import utils
 from . import solver
 from . import sorter
 import sys
+import numpy as np
 
 
 if __name__ == '__main__':
     pprint.clear()
+    np.set_printoptions(threshold=sys.maxsize)  # print matrices in full
 
     v, k, l, u = map(int, sys.argv[1:])
     print(v, k, l, u)
-- 
2.43.0


From 5aa2e129308af65fb84639fd9ed186e999b6c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 09/12] fix: refuse answers whose locations are not ascending

---
 srg/srg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/srg.py b/srg/srg.py
index ac2b311..f2543f8 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -19,7 +19,7 @@ class Answer:
         assert np.array_equal(value.shape, location.shape)
         if location.size > 0:
             assert location[0] == 0
-            assert all(np.diff(location)), f'location is not sorted: {location}'
+            assert all(np.diff(location) > 0), f'location is not sorted: {location}'
             assert location[-1] < len
 
         self._v = value
-- 
2.43.0


From 3cbe8e652601a641eb086868a762519c9561094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 10/12] fix: sort matrices of unsigned or boolean type in the
 right order

---
 srg/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index de78b48..c4650c0 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -93,7 +93,7 @@ def maximize(A):
 def _cmp_1d_bin_array(arr, brr):
     for a, b in zip(arr, brr):
         if a == b: continue
-        else: return a - b
+        else: return 1 if a > b else -1
     else: return 0
 
 def _encode(srg_matrix):
-- 
2.43.0


From 0b5e8cc7aa9e349f2ccd12844f5fbee735fff03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 11/12] fix: maximise matrices of unsigned or boolean type

---
 srg/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index c4650c0..ab0746c 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -60,7 +60,7 @@ class AdjMat:
 
         M = self.Mat
         a = M[row, colrange[0]:colrange[1]]
-        i = np.argsort(-a)  # large element first, so negate a.
+        i = np.argsort(-a.astype(int))  # large element first, so negate a.
 
         ii = np.arange(self.v)
         ii[colrange[0]: colrange[1]] = i + colrange[0]
-- 
2.43.0


From 81706e0b021281539a7f700d5f647a083a9525fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:43 +0000
Subject: [PATCH 12/12] fix: read partial matrices of any number type

---
 srg/srg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/srg.py b/srg/srg.py
index f2543f8..fd2d7e0 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -143,6 +143,7 @@ class Question:
 
     @classmethod
     def from_matrix(cls, m: np.array):
+        m = np.asarray(m, dtype=int)  # counts do not fit into small types
         v,k,l,u = vklu(m)
         R, C = m.shape
         assert C == v
@@ -265,6 +266,7 @@ class SRG:
         return repr(self._matrix)
 
 def vklu(mat : array):
+    mat = np.asarray(mat, dtype=int)  # counts do not fit into small types
     R, C = mat.shape
     v, k = C, mat[0].sum()
     l = mat[0].dot(mat[1])
-- 
2.43.0

