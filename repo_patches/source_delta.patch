From fbe5f107ba4c9986bcf0da5770ba48e4dbc51b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 01/26] fix: order complementary parts explicitly in quantum
 Pieri for OG(n,2n+2)

---
 schubertpy/orthogonal_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 156e587..225b249 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -296,7 +296,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
 
     def _toSchurFromIntnMu(self, _intn: set, _mu: List[int]) -> LinearCombination:
-        sch = Schur((list(_intn - set(_mu))[::-1]))
+        sch = Schur(sorted(_intn - set(_mu), reverse=True))
         return LinearCombination(sch.symbol())
 
     @hashable_lru_cache_method(maxsize=None)
-- 
2.43.0


From 72e249a7520598499b6e35b8a6d4111c8e679ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 02/26] fix: do not drop trailing zeros of the caller's
 partition in SchurPol

---
 schubertpy/utils/mix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index bf7c1ea..ba737e5 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -58,6 +58,7 @@ def __is_decreasing__(x):
 
 
 def __drop_trailing_zeros__(x):
+    x = list(x)
     n = len(x) - 1
     while n >= 0 and x[n] == 0:
         x.pop()
-- 
2.43.0


From 4f653a06a0ae9e367b976f7f38365db10529f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:17 +0000
Subject: [PATCH 03/26] fix: draw linear combinations that contain the empty
 partition

---
 schubertpy/lc.py        | 4 ++--
 schubertpy/utils/mix.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 00c56d4..934e8a1 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -333,14 +333,14 @@ class LinearCombination(object):
         
         # Prepare the ASCII art lines
         ascii_lines = []
-        max_height = 0
+        max_height = 1  # the empty partition still carries a coefficient
         
         for coeff, part in expansion:
             max_height = max(max_height, len(part))
         
         part_count = 0
         for coeff, part in expansion:
-            part_ascii = embed_partition(part, max(part), max_height)
+            part_ascii = embed_partition(part, max(part, default=0), max_height)
             coeff_str = ""
             if coeff != 1:
                 coeff_str = f"{coeff}*"
diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index ba737e5..7261dba 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -32,7 +32,7 @@ def embed_str(s: str, height: int) -> List[str]:
 
 def embed_partition(partition: List[int], width, height: int) -> List[str]:
     res = partition_to_ascii(partition)
-    if width*2 > len(res[0]):
+    if res and width*2 > len(res[0]):
         for i, row in enumerate(res):
             res[i] = row + "  "*(width - int(len(row)/2))
     if height > len(res):
-- 
2.43.0


From dfbd76d136326e08802e0f07f4138c04f5d1347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 04/26] fix: reject non-expandable terms in schur_expansion
 instead of recursing forever

---
 schubertpy/lc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 934e8a1..c81f46f 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -243,6 +243,8 @@ class LinearCombination(object):
             if len(ss) <=0:
                 raise ValueError(f"Schur function absent or not in order 1: {expr}")
             s = ss[0]
+            if any(isSchur(sym) for sym in new_expr.free_symbols):
+                raise ValueError(f"Schur function absent or not in order 1: {expr}")
             return (LinearCombination(new_expr), Schur(s).partition())
         raise ValueError(f"Invalid type for cutoff Schur: {expr}")
     
@@ -275,7 +277,7 @@ class LinearCombination(object):
             expression type is not supported for Schur expansion.
         """
         if isinstance(expr, sp.Number):
-            return (int(expr),[])
+            return (int(expr) if expr.is_Integer else expr, [])
         if isSchur(expr):
             return (1, toSchur(str(expr)).partition())
         if isinstance(expr, sp.Mul):
@@ -283,16 +285,16 @@ class LinearCombination(object):
                 raise ValueError(f"Cannot convert a product with multiple Schur functions to schur_expansion. Please expand the expression first: {self.expr}")
             return(self. _cutoff_Schur(expr))
             
-        if isinstance(self.expr, sp.Add):
+        if isinstance(expr, sp.Add):
             # Handle the case where the expression is a sum of terms
             res = []
-            for term in self.expr.args:
+            for term in expr.args:
                 if not include_q and str(term).__contains__('q'):
                     continue
                 res.append(self._schur_expansion(term))
             sorted_array = sorted(res, key=lambda x: x[1])
             return sorted_array
-        raise ValueError(f"Invalid type for schur_expansion: {self.expr}")
+        raise ValueError(f"Invalid type for schur_expansion: {expr}")
 
     def schur_expansion(self, include_q=True) -> 'LinearCombination':
         """
-- 
2.43.0


From b97aeabec899a0e0add10ff26c0ee9e5c728cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:57 +0000
Subject: [PATCH 05/26] fix: honour include_q=False when the combination is a
 single q term

---
 schubertpy/lc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index c81f46f..88661e9 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -313,6 +313,8 @@ class LinearCombination(object):
         representing the partition of a Schur function, or raises a ValueError if the
         expression cannot be expanded into Schur components.
         """
+        if not include_q and not self.expr.is_Add and 'q' in str(self.expr):
+            return []
         return self._schur_expansion(self.expr, include_q)
 
     def draw_ascii_partition(self, include_q=True):
-- 
2.43.0


From 34676cc8422dd072ab3e3239ad9a691ac2ec4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 06/26] fix: accept partitions given as lists in part2index,
 part2pair, pair2part and type_swap

---
 schubertpy/grassmannian.py            | 5 ++---
 schubertpy/isotropic_grassmannian.py  | 5 ++---
 schubertpy/orthogonal_grassmannian.py | 7 ++-----
 3 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 3ef6697..00d2f9e 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -15,7 +15,6 @@ from .qcalc import (
     part_clip,
     pieri_itrA,
     part_star,
-    part2index,
     part2indexA_inner,
     index2partA_inner,
     dualize_index_inner,
@@ -101,7 +100,7 @@ class Grassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexA_inner(lam, self._k, self._n), lc)
         
 
@@ -120,7 +119,7 @@ class Grassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 93a30c0..971ddf2 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -11,7 +11,6 @@ from .qcalc import (
     part2pair_inner,
     pair2part_inner,
     part2indexC_inner,
-    part2index,
     index2partC_inner,
     dualize_index_inner,
     pieri_set,
@@ -114,7 +113,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexC_inner(lam, self._k, self._n), lc)
         
 
@@ -133,7 +132,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 225b249..c536aa6 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -13,7 +13,6 @@ from .qcalc import (
     pair2part_inner,
     part2indexB_inner,
     part2indexD_inner,
-    part2index,
     index2partB_inner,
     index2partD_inner,
     dualize_index_inner,
@@ -137,7 +136,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            lc = Schur(lc).symbol()
             return part2pair_inner(lc, self._k)
         else:
             lc = LinearCombination(lc)
@@ -146,7 +144,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            lc = Schur(lc).symbol()
             return pair2part_inner(lc)
         else:
             lc = LinearCombination(lc)
@@ -154,7 +151,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         
         lc = LinearCombination(lc)
         f = part2indexB_inner
@@ -186,7 +183,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         
         if self._type == "D":
             return apply_lc(lambda lam: type_swap_inner(lam, self._k), lc)
-- 
2.43.0


From c1c665fd297b9bb60120abfbdd9a54024605c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 07/26] fix: return a LinearCombination from pieri on list
 input in every type

---
 schubertpy/abstract_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 7076e8f..62c45f1 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -105,7 +105,7 @@ class AbstractGrassmannian(ABC):
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
         if isinstance(lc, list):
-            return self._pieri(i, lc, self._k, self._n)
+            return LinearCombination(self._pieri(i, lc, self._k, self._n))
         else:
             return apply_lc(lambda p: self._pieri(i, p, self._k, self._n), lc)
 
-- 
2.43.0


From a05578ad700d1804c77f7269d9845a77e6c747ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 08/26] fix: clone isotropic and orthogonal Grassmannians with
 their own parameters

---
 schubertpy/abstract_grassmannian.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 62c45f1..7f14e49 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -28,6 +28,10 @@ class AbstractGrassmannian(ABC):
     @abstractmethod
     def degree_q(self) -> int:
         pass
+
+    @abstractmethod
+    def get_type_data(self) -> list:
+        pass
     
     @abstractmethod
     def schub_classes(self) -> List[Schur]:
@@ -100,7 +104,8 @@ class AbstractGrassmannian(ABC):
 
     
     def clone(self):
-        return self.__class__(self._n-self._k, self._n)
+        _, _, _, _, m, n, _ = self.get_type_data()
+        return self.__class__(m, n)
         
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
-- 
2.43.0


From 5e70e4a6aff1238ec5237bb41539dc798cf523b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 09/26] fix: keep LinearCombination as the result of
 subtracting scalars and expressions

---
 schubertpy/lc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 88661e9..4428f44 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -70,7 +70,7 @@ class LinearCombination(object):
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
-            return self.expr - other
+            return LinearCombination(self.expr - other)
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr - other.expr)
         else:
@@ -79,7 +79,7 @@ class LinearCombination(object):
     def __rsub__(self, other):
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
-            return other - self.expr
+            return LinearCombination(other - self.expr)
         if isinstance(other, LinearCombination):
             return LinearCombination(other.expr - self.expr)
         else:
-- 
2.43.0


From f5731e5834ecbc7789f292beec1de0d00bf00588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:35 +0000
Subject: [PATCH 10/26] fix: list the class of the point for Gr(0,n) and return
 it as a Schur for Gr(n,n)

---
 schubertpy/grassmannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 00d2f9e..57953f1 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -66,7 +66,7 @@ class Grassmannian(AbstractGrassmannian):
             raise ValueError("Must set type with IG or OG or set_type functions.")
 
         mu = [self._k] * (self._n - self._k)
-        partitions = part_gen(mu)
+        partitions = part_gen(mu) if mu else [[]]
         partitions.sort()
         res = [Schur(lam) for lam in partitions]
         res = unique_schur_list(res)
@@ -89,7 +89,7 @@ class Grassmannian(AbstractGrassmannian):
 
         if self._k > 0:
             return Schur((([self._k] * (self._n - self._k))))
-        return []
+        return Schur([])
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         raise Exception("Only types B,C,D.")
-- 
2.43.0


From f08785c4be711cff26e4a5744f2efd18237a2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:43 +0000
Subject: [PATCH 11/26] fix: accept Schur objects in schub_type

---
 schubertpy/orthogonal_grassmannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index c536aa6..8a27d53 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -191,7 +191,9 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
-        if self._type != "D" or not (isinstance(lam, list) or not isinstance(lam, Schur)):
+        if isinstance(lam, Schur):
+            lam = lam.partition()
+        if self._type != "D" or not isinstance(lam, list):
             raise ValueError("No type defined.")
         
         if self._k not in lam:
-- 
2.43.0


From 58818c0df0b2884716d594baaf22b3d8f14cda58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:14 +0000
Subject: [PATCH 12/26] fix: parse combinations with spaces inside partitions

---
 schubertpy/lc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 4428f44..8677ab5 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -1,3 +1,4 @@
+import re
 from typing import *
 import sympy as sp
 
@@ -16,6 +17,8 @@ class LinearCombination(object):
             self.expr = Schur(expr).symbol()
             return
         if isinstance(expr, str):
+            # spaces inside a partition, as in 'S[2, 1]', are not significant
+            expr = re.sub(r'\s*([\[,])\s*|\s+(\])', r'\1\2', expr)
             expr = expr.replace('^', '**')
             expr = expr.translate(ftable)
             self.expr = sp.parse_expr(expr)
-- 
2.43.0


From 1fc75944f2d2ca1711ce87b43f82a182f41c6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:13 +0000
Subject: [PATCH 13/26] fix: let Schur classes be combined with the zero
 LinearCombination

---
 schubertpy/schur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 6ad8275..4ca6714 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -47,7 +47,7 @@ class Schur(object):
             return self.symbol() + other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() + other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() + other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -58,7 +58,7 @@ class Schur(object):
             return self.symbol() * other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() * other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() * other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -69,7 +69,7 @@ class Schur(object):
             return self.symbol() ** other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() ** other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() ** other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
 
-- 
2.43.0


From 6b8dfa6f1ed3a12f6384654de57d84a1da2c3fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 14/26] fix: accept Schur operands in LinearCombination sums
 and products on either side

---
 schubertpy/lc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 8677ab5..406a0e2 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -41,6 +41,8 @@ class LinearCombination(object):
         return self.__str__()
     
     def __add__(self, other):
+        if isinstance(other, Schur):
+            other = other.symbol()
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr + other.expr)
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
@@ -51,6 +53,8 @@ class LinearCombination(object):
 
     def __mul__(self, other):
         # Handle scalar multiplication
+        if isinstance(other, Schur):
+            other = other.symbol()
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr * other.expr)
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
@@ -71,6 +75,8 @@ class LinearCombination(object):
 
     def __sub__(self, other):
         # Handle subtraction when LinearCombination is on the left
+        if isinstance(other, Schur):
+            other = other.symbol()
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
             return LinearCombination(self.expr - other)
@@ -81,6 +87,8 @@ class LinearCombination(object):
     
     def __rsub__(self, other):
         # Handle subtraction when LinearCombination is on the right
+        if isinstance(other, Schur):
+            other = other.symbol()
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             return LinearCombination(other - self.expr)
         if isinstance(other, LinearCombination):
-- 
2.43.0


From b6d9351ac176184e1830985960ff789c55a0a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 15/26] fix: reject OG(m,n) with m larger than n/2 like the
 other constructors

---
 schubertpy/orthogonal_grassmannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 8a27d53..f12fd3c 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -36,7 +36,9 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
             raise TypeError("Arguments must be integers")
         if m < 0 or n < 0:
             raise ValueError("Arguments must be non-negative")
-            
+        if m > n//2:
+            raise ValueError(f"m must be less than or equal to {n//2}")
+
         if n % 2 == 1:
             self._type = "B"
             self._k = (n-1)//2 - m
-- 
2.43.0


From 84a93595f14d32f7fc0867042b57dc8cd2d41807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 16/26] fix: sum the heights of all removed rim hooks for the
 sign in qmult_rh

---
 schubertpy/grassmannian.py | 2 +-
 schubertpy/partition.py    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 57953f1..b2be663 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -204,7 +204,7 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height-kp)
+            sign = -1 if (height - q_num*kp) % 2 else 1
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index b00c12a..7718801 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -98,6 +98,7 @@ class Partition:
         nrow, ncol = acceptable_grid
         current_partition = self.partition.copy()  # Use a copy to avoid modifying the original partition
         total_rim_hooks_removed = 0  # Initialize the rim hook count
+        total_height = 0  # Number of rows spanned, summed over the removed rim hooks
         
         while True:
             _partition = current_partition + [0]  # Append 0 to handle the difference calculation
@@ -129,20 +130,21 @@ class Partition:
 
             if rim_hook_removed_this_iteration:
                 # Accumulate the height of the removed rim hook
+                total_height += i + 1
                 if not _is_non_increasing(_partition):
                     # The partition is not valid after modification
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height
 
                 _partition = part_clip(_partition)
                 new_partition = Partition(_partition)
 
                 if new_partition.is_in_range(nrow, ncol):
                     # The new partition fits within the acceptable grid
-                    return new_partition, total_rim_hooks_removed, skew_partition_height(new_partition.partition, self.partition)
+                    return new_partition, total_rim_hooks_removed, total_height
 
                 if new_partition.partition == current_partition:
                     # No further changes can be made; exit the loop
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height
 
                 # Update the partition for the next iteration
                 current_partition = new_partition.partition
-- 
2.43.0


From 0b92ba98711cd8cf6b0580de6f30783a525cb03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 17/26] fix: treat q1 and q2 as coefficients when acting with a
 polynomial

---
 schubertpy/abstract_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 7f14e49..633cf0b 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -198,7 +198,7 @@ class AbstractGrassmannian(ABC):
         lc = LinearCombination(lc)
 
         q = sp.Symbol('q')
-        vars = expc.free_symbols - {q}
+        vars = expc.free_symbols - {q, *sp.symbols('q1 q2')}
         vars = sorted(vars, key=lambda x: str(x))
         
         # If there are no variables, multiply expc by lc and return
-- 
2.43.0


From 9b3abbf7134f498301fcece0aa71c169d31b5136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 18/26] fix: pass the partition, not the bound method, to
 SageMath in schur_to_sage_schur

---
 schubertsage/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertsage/conversion.py b/schubertsage/conversion.py
index 07d0499..d1537d7 100644
--- a/schubertsage/conversion.py
+++ b/schubertsage/conversion.py
@@ -24,4 +24,4 @@ def sage_schur_to_schur(sage_schur: SymmetricFunctionAlgebra_schur) -> Schur:
     return Schur(partition)
 
 def schur_to_sage_schur(schur) -> SymmetricFunctionAlgebra_schur:
-    return S(schur.partition)
\ No newline at end of file
+    return S(schur.partition())
\ No newline at end of file
-- 
2.43.0


From d843d5c5df6d373276ece2ffcdf7ea6e1f3afd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:02 +0000
Subject: [PATCH 19/26] fix: refuse multi-term SageMath input instead of
 converting one arbitrary term

---
 schubertsage/conversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/schubertsage/conversion.py b/schubertsage/conversion.py
index d1537d7..bd309a3 100644
--- a/schubertsage/conversion.py
+++ b/schubertsage/conversion.py
@@ -15,12 +15,13 @@ S = sym.schur()
 
 # Function to convert from SageMath Schur function to Schur object
 def sage_schur_to_schur(sage_schur: SymmetricFunctionAlgebra_schur) -> Schur:
-    print(type(sage_schur))
     if sage_schur.parent()!=S:
         raise ValueError("SageMath Schur function is not a Schur function")
     
-    partition = list(sage_schur.monomial_coefficients().keys())[0]
-    print(partition)
+    terms = sage_schur.monomial_coefficients()
+    if list(terms.values()) != [1]:
+        raise ValueError("A single SageMath Schur function is expected")
+    partition = list(terms.keys())[0]
     return Schur(partition)
 
 def schur_to_sage_schur(schur) -> SymmetricFunctionAlgebra_schur:
-- 
2.43.0


From 60f4ce8ccf53e68bea30f2dd3def32a950b8861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:02 +0000
Subject: [PATCH 20/26] fix: read powers written with ^ in
 check_bijection_with_permutation

---
 schubertpy/csv_bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/csv_bijection.py b/schubertpy/csv_bijection.py
index 48c88c3..b934b90 100644
--- a/schubertpy/csv_bijection.py
+++ b/schubertpy/csv_bijection.py
@@ -10,7 +10,7 @@ def _read_csv_transformed(filename):
             if not any(row):
                 continue
             if len(row) >= 3:
-                col3 = encode(row[2])
+                col3 = encode(row[2]).replace('^', '**')
                 col3 = sp.parse_expr(col3)
                 col3 = sp.expand(col3).simplify()
                 col3 = decode(str(col3))
-- 
2.43.0


From 36805dde5493285d1103ee4c9e92b87dbc00249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 21/26] fix: count repeated rows in
 check_bijection_with_permutation

---
 schubertpy/csv_bijection.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/schubertpy/csv_bijection.py b/schubertpy/csv_bijection.py
index b934b90..a4ca4c2 100644
--- a/schubertpy/csv_bijection.py
+++ b/schubertpy/csv_bijection.py
@@ -1,11 +1,12 @@
 import csv
+from collections import Counter
 import sympy as sp
 from .utils.const import *
 
 def _read_csv_transformed(filename):
     with open(filename, newline='') as csvfile:
         reader = csv.reader(csvfile, delimiter=';')
-        transformed_set = set()
+        transformed_rows = Counter()
         for row in reader:
             if not any(row):
                 continue
@@ -15,15 +16,12 @@ def _read_csv_transformed(filename):
                 col3 = sp.expand(col3).simplify()
                 col3 = decode(str(col3))
                 transformed_row = (row[0], row[1], col3)
-                transformed_set.add(transformed_row)
-        return transformed_set
+                transformed_rows[transformed_row] += 1
+        return transformed_rows
 
 def check_bijection_with_permutation(file1, file2):
-    set1 = _read_csv_transformed(file1)
-    set2 = _read_csv_transformed(file2)
+    rows1 = _read_csv_transformed(file1)
+    rows2 = _read_csv_transformed(file2)
 
     # Check if there's a bijection
-    if len(set1) == len(set2) and len(set1.intersection(set2)) == len(set1):
-        return True
-    else:
-        return False
+    return rows1 == rows2
-- 
2.43.0


From 6095dbb782145765f9c62dad22b50456b83b66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 22/26] fix: ignore trailing zeros in Partition.is_in_range

---
 schubertpy/partition.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index 7718801..aaf25f3 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -59,13 +59,16 @@ class Partition:
         if nrow < 0 or ncol < 0:
             raise ValueError("nrow and ncol must be non-negative")
         
-        if len(self.partition) == 0:
+        # trailing zeros contribute no boxes
+        partition = part_clip(self.partition)
+
+        if len(partition) == 0:
             return True
         
-        if len(self.partition) > nrow:
+        if len(partition) > nrow:
             return False
         
-        if self.partition[0] > ncol:
+        if partition[0] > ncol:
             return False
     
         return True
-- 
2.43.0


From b8ff6b753a7ee8ddf3be668447f8f9b7147432f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 23/26] fix: ignore trailing zeros in skew_partition_height

---
 schubertpy/partition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index aaf25f3..d84d885 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -188,8 +188,9 @@ def skew_partition_height(lambda_partition: List[int], mu_partition: List[int])
     2
     """
 
-    if len(lambda_partition) == 0:
-        return len(mu_partition)
+    # trailing zeros contribute no boxes
+    lambda_partition = part_clip(lambda_partition)
+    mu_partition = part_clip(mu_partition)
 
     # Validation: Ensure lambda is contained within mu
     for i in range(len(lambda_partition)):
-- 
2.43.0


From 021ed665769b28736d4f0eb59502853dc9fe593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 24/26] fix: keep all_kstrict inside the rectangle when it has
 fewer than k columns

---
 schubertpy/utils/kstrict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/utils/kstrict.py b/schubertpy/utils/kstrict.py
index ff7fa8f..08c4e2e 100644
--- a/schubertpy/utils/kstrict.py
+++ b/schubertpy/utils/kstrict.py
@@ -25,7 +25,7 @@ def _first_kstrict(k: int, rows: int, cols: int) -> List[int]:
         >>> _first_kstrict(k=2, rows=3, cols=5)
         [5, 4, 3]  # First k-strict partition with k=2, 3 rows, max width 5
     """
-    return [max(k, cols - i) for i in range(rows)]
+    return [min(cols, max(k, cols - i)) for i in range(rows)]
 
 
 def _itr_kstrict(lambda_: List[int], k: int) -> Optional[List[int]]:
-- 
2.43.0


From a00c11825059f66592a9e18602f2ce2a066d503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 25/26] fix: close the figure when export_png cannot write its
 file

---
 schubertpy/schur.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 4ca6714..0b888cb 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -150,8 +150,10 @@ class Schur(object):
     def export_png(self, filename: str) -> None:
         """Exports the partition as a PNG image."""
         fig, ax = self.plot_partition()
-        plt.savefig(filename, bbox_inches='tight', pad_inches=0.1)
-        plt.close(fig)
+        try:
+            plt.savefig(filename, bbox_inches='tight', pad_inches=0.1)
+        finally:
+            plt.close(fig)
     
     def to_polinomial_str(self, n) -> str:
         """
-- 
2.43.0


From 863515a3760c5e4c38a928f2eb4b7ff4481f539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 26/26] fix: count rows that are cut short when comparing
 result files

Rows with fewer than three columns were skipped, so a file with an additional
truncated row was reported as matching.
---
 schubertpy/csv_bijection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schubertpy/csv_bijection.py b/schubertpy/csv_bijection.py
index a4ca4c2..75fdf08 100644
--- a/schubertpy/csv_bijection.py
+++ b/schubertpy/csv_bijection.py
@@ -17,6 +17,9 @@ def _read_csv_transformed(filename):
                 col3 = decode(str(col3))
                 transformed_row = (row[0], row[1], col3)
                 transformed_rows[transformed_row] += 1
+            else:
+                # a row cut short is a result as well
+                transformed_rows[tuple(row)] += 1
         return transformed_rows
 
 def check_bijection_with_permutation(file1, file2):
-- 
2.43.0

