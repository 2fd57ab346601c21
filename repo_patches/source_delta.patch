From 9d92d14b203cb6e20b3e6b074a6bad613f95e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:22 +0000
Subject: [PATCH 01/24] fix: apply the three-body cutoff to all three edges of
 a triple

The mask tested the j-k edge twice and never the i-k edge, so triples with
one edge beyond the cutoff still contributed and atom energies depended on
the atom order.
---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index d692a13..dec3582 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -153,7 +153,7 @@ def get_atm_dispersion(
     ang = torch.where(
         mask_triples
         * (r2ij <= cutoff2)
-        * (r2jk <= cutoff2)
+        * (r2ik <= cutoff2)
         * (r2jk <= cutoff2),
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
-- 
2.43.0


From b70d87e444da97ef06d43485fd871d46c595fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:40 +0000
Subject: [PATCH 02/24] fix: look up functionals case-insensitively as
 documented

The membership test ran before the name was case-folded, so every name with
an upper-case letter was rejected with a KeyError.
---
 src/tad_dftd4/damping/parameters/loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 0be7c12..fbefe54 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -88,6 +88,10 @@ def get_params(
     method = DispersionMethod(method)
     table = _load(method)
 
+    # Functional names are case-insensitive (stored in lower case)
+    if functional is not None:
+        functional = functional.casefold()
+
     if functional in (None, "default"):
         default_section = table["default"]
 
@@ -106,7 +110,7 @@ def get_params(
                 f"Functional '{functional!r}' not found in damping parameters."
             )
 
-        disp_method_section = func_section[functional.casefold()]
+        disp_method_section = func_section[functional]
         if method.value not in disp_method_section:
             raise KeyError(
                 f"Method '{method}' not found in damping parameters "
-- 
2.43.0


From 9929f424bd01666fc661237370090479c936c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:03 +0000
Subject: [PATCH 03/24] fix: resolve the default variant before looking up
 default parameters

Omitting both functional and variant raised a KeyError, and the tabulated
default parameters of every non-default variant could not be reached because
the variant was looked up in the list of default variants.
---
 src/tad_dftd4/damping/parameters/loader.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index fbefe54..1d27e03 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -92,17 +92,18 @@ def get_params(
     if functional is not None:
         functional = functional.casefold()
 
+    # Get default variant if not specified
+    if variant is None:
+        variant = table["default"][method.value][0]
+
     if functional in (None, "default"):
-        default_section = table["default"]
+        disp_method_section = table["default"]["parameter"]
 
-        variant_section = default_section[method.value]
-        if variant not in variant_section:
+        if variant not in disp_method_section[method.value]:
             raise KeyError(
                 f"Variant '{variant}' not found in default parameters for "
                 f"method={method.value!r}."
             )
-
-        disp_method_section = default_section["parameter"]
     else:
         func_section = table["parameter"]
         if functional not in func_section:
@@ -117,10 +118,6 @@ def get_params(
                 f"for '{functional!r}'."
             )
 
-    # Get default variant if not specified
-    if variant is None:
-        variant = table["default"][method.value][0]
-
     variant_section = disp_method_section[method.value]
     if variant not in variant_section:
         raise KeyError(
-- 
2.43.0


From eb99d847a94c18baada2483d27908ba75a573c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:47 +0000
Subject: [PATCH 04/24] fix: damp with the critical radius in optimised-power
 damping

The denominator used the distance twice (ab * R^n instead of ab * R0^n), so
the function diverged at short range instead of being damped.
---
 src/tad_dftd4/damping/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index f4eefec..7956a91 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -481,7 +481,7 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * distances**order)
+        return rb / (rb * distances**order + ab * radius**order)
 
 
 class ZDamping(Damping):
-- 
2.43.0


From 244d3e595e9f75b91af0506d567ce427f5fe4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:41 +0000
Subject: [PATCH 05/24] fix: evaluate zero damping with R0/R for pair
 interactions

The damping function computed (R/R0)^alp, i.e. it damped the long range and
left the short range undamped; the three-body term compensated by passing
distances and radii in swapped order. Use R0/R as documented, pass the
three-body arguments in order, and give masked pairs a harmless distance.
---
 src/tad_dftd4/damping/functions.py    | 2 +-
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 src/tad_dftd4/dispersion/twobody.py   | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 7956a91..1b20a4f 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -367,7 +367,7 @@ class ZeroDamping(Damping):
             rs = rs9
 
         # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)
-        t_n = rs * storch.divide(distances, radii)
+        t_n = rs * storch.divide(radii, distances)
 
         f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)
 
diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index dec3582..1daedfe 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -133,10 +133,10 @@ def get_atm_dispersion(
     fdamp = torch.where(
         mask_triples,
         damping_function(
-            r0,
             # dividing by tiny numbers leads to huge numbers, which result in
             # NaN's upon exponentiation in the subsequent step
             torch.where(mask_triples, r1, one),
+            r0,
             order=9,
             alp=alp / 3.0,
             only_damping=True,
diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index b168dd2..81eb4ad 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -138,10 +138,12 @@ def dispersion2(
         cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)
 
     mask = real_pairs(numbers, mask_diagonal=True)
+    # Masked pairs get a harmless distance, because tiny values overflow upon
+    # exponentiation in the damping functions.
     distances = torch.where(
         mask,
         storch.cdist(positions, positions, p=2),
-        torch.tensor(torch.finfo(positions.dtype).eps, **dd),
+        torch.tensor(1.0, **dd),
     )
 
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
-- 
2.43.0


From f0ab0019113a90bb7330b225863f6c9f768edb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:39 +0000
Subject: [PATCH 06/24] fix: keep padding out of the damping functions of the
 pair energy

Padded pairs have zero radii, so gradients with respect to the damping
parameters (modified zero damping) or the expectation values (rational
damping) of a padded batch were NaN.
---
 src/tad_dftd4/dispersion/twobody.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index 81eb4ad..6d2ae60 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -158,6 +158,9 @@ def dispersion2(
     else:
         raise ValueError(f"Unknown radius type: {damping_function.radius_type}")
 
+    # Masked pairs (padding) have zero radii, which give NaN gradients.
+    radii = torch.where(mask, radii, torch.tensor(1.0, **dd))
+
     t6 = torch.where(
         mask * (distances <= cutoff),
         damping_function(distances, radii, 6, **param),
-- 
2.43.0


From d415f3f385be3e2c22bd3e48cb9891752f848fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 07/24] fix: keep gradients finite when all Gaussian weights
 underflow

The fallback to the reference with the largest coordination number selected
the right weights, but the division by a vanishing norm in the discarded
branch turned every gradient into NaN.
---
 src/tad_dftd4/model/d4.py  | 10 ++++++----
 src/tad_dftd4/model/d4s.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 8463e20..98eeb9c 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -197,10 +197,12 @@ class D4Model(BaseModel):
         # Moreover, we need to mask the normalization to avoid division by zero
         # for autograd. Strangely, `storch.divide` gives erroneous results for
         # some elements (Mg, e.g. in MB16_43/03).
+        total = torch.sum(expw, dim=-1, keepdim=True)
+        underflow = mask & (total < 1e-300)
         norm = torch.where(
-            mask,
-            torch.sum(expw, dim=-1, keepdim=True),
-            torch.tensor(1e-300, device=self.device, dtype=torch.double),
+            mask & ~underflow,
+            total,
+            torch.tensor(1.0, device=self.device, dtype=torch.double),
         )
 
         # back to real dtype
@@ -211,7 +213,7 @@ class D4Model(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            underflow,
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 539dab0..4acb65a 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -47,7 +47,6 @@ from tad_mctc.math import einsum
 from tad_mctc.typing import Literal, Tensor, overload
 
 from .. import data
-from ..utils import is_exceptional
 from .base import WF_DEFAULT, BaseModel
 
 __all__ = ["D4SModel"]
@@ -216,10 +215,12 @@ class D4SModel(BaseModel):
         # Moreover, we need to mask the normalization to avoid division by zero
         # for autograd. Strangely, `storch.divide` gives erroneous results for
         # some elements (Mg, e.g. in MB16_43/03).
+        total = torch.sum(expw, dim=-1, keepdim=True)
+        underflow = mask & (total < 1e-300)
         norm = torch.where(
-            mask,
-            torch.sum(expw, dim=-1, keepdim=True),
-            torch.tensor(1e-300, device=self.device, dtype=torch.double),
+            mask & ~underflow,
+            total,
+            torch.tensor(1.0, device=self.device, dtype=torch.double),
         )
 
         # back to real dtype
@@ -230,7 +231,7 @@ class D4SModel(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            underflow,
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
-- 
2.43.0


From d192533c718eb893920dd3ae8b8500300ed4eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:27 +0000
Subject: [PATCH 08/24] fix: keep gradients finite for atoms stripped of their
 effective charge

For effective charges at or below zero the discarded branch of the charge
scaling overflowed and turned gradients into NaN, and for positive values
below machine epsilon the scaling jumped to zero instead of its limit.
---
 src/tad_dftd4/model/base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index db64219..a77fdec 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -326,10 +326,13 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # avoid overflow (NaN gradient) in the branch that is masked below
+        mask = qmod > eps
+        qsafe = torch.where(mask, qmod - eps, torch.ones_like(qmod))
+        scale = torch.exp(gam * (1.0 - qref / qsafe))
 
         return torch.where(
-            qmod > 0.0,
+            mask,
             torch.exp(ga * (1.0 - scale)),
             torch.exp(ga),
         )
@@ -355,11 +358,14 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # avoid overflow (NaN gradient) in the branch that is masked below
+        mask = qmod > eps
+        qsafe = torch.where(mask, qmod - eps, torch.ones_like(qmod))
+        scale = torch.exp(gam * (1.0 - qref / qsafe))
         zeta = torch.exp(ga * (1.0 - scale))
 
         return torch.where(
-            qmod > 0.0,
+            mask,
             -ga * gam * scale * zeta * storch.divide(qref, qmod**2),
             torch.tensor(0.0, **self.dd),
         )
-- 
2.43.0


From 5a336ae06f0579dbde4338f17d06b0812a1f643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:59 +0000
Subject: [PATCH 09/24] fix: keep atomic numbers integer when converting a
 model's precision

Converting a model turned its atomic numbers into floats, so every later
evaluation of the converted model failed with an IndexError.
---
 src/tad_dftd4/model/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index a77fdec..ce8635f 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -46,7 +46,7 @@ import torch
 from tad_mctc import storch
 from tad_mctc.convert import any_to_tensor
 from tad_mctc.math import einsum
-from tad_mctc.typing import Literal, Tensor, TensorLike, overload
+from tad_mctc.typing import Literal, Self, Tensor, TensorLike, overload
 
 from .. import data
 from ..utils import trapzd
@@ -150,6 +150,18 @@ class BaseModel(TensorLike):
         self.wf = self._get_wf() if wf is None else any_to_tensor(wf, **self.dd)
         self.rc6 = self._get_refc6() if rc6 is None else rc6
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ) -> Self:
+        new = super()._clone_tensorlike(device=device, dtype=dtype)
+
+        # atomic numbers are indices and must not become floating point
+        new.numbers = self.numbers.to(new.device)
+        return new
+
     ####################
     # Abstract methods #
     ####################
-- 
2.43.0


From 76ed053e8deca146877a78517908fca3c767d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:30 +0000
Subject: [PATCH 10/24] fix: do not share the term list between a container and
 its converted copy

Converting a container's precision kept the same list object, so registering
or removing a term on the copy also changed the original.
---
 src/tad_dftd4/dispersion/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 7d4fd34..f7202a7 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -28,7 +28,7 @@ from typing import ClassVar
 
 import torch
 from tad_mctc.convert import any_to_tensor
-from tad_mctc.typing import DD, Any, CNFunc, Tensor, TensorLike
+from tad_mctc.typing import DD, Any, CNFunc, Self, Tensor, TensorLike
 
 from ..cutoff import Cutoff
 from ..damping import Damping, Param
@@ -212,6 +212,18 @@ class Disp(TensorLike):
             kw = {} if kw is None else kw.copy()
             self.register(term_cls(**kw))
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ) -> Self:
+        new = super()._clone_tensorlike(device=device, dtype=dtype)
+
+        # do not share the mutable list of terms with the original
+        new.terms = [t.to(device=device, dtype=dtype) for t in self.terms]
+        return new
+
     def register(self, term: DispTerm) -> None:
         self.terms.append(term)
 
-- 
2.43.0


From bbc20ece6f20d95381b8a25b3ca93baa33ade2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:14 +0000
Subject: [PATCH 11/24] fix: do not round three-body defaults to the terms'
 precision

Terms live in the default (single) precision, so an omitted a1 entered a
double-precision calculation as 0.4 rounded to single precision.
---
 src/tad_dftd4/dispersion/threebody.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 1daedfe..3787b6f 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -230,8 +230,8 @@ class ATM(ThreeBodyTerm, ABC):
             radii,
             damping_function=self.damping_fn,
             cutoff=cutoff.disp3,
-            s9=param.get("s9", torch.tensor(defaults.S9, **self.dd)),
-            alp=param.get("alp", torch.tensor(defaults.ALP, **self.dd)),
+            s9=param.get("s9", defaults.S9),
+            alp=param.get("alp", defaults.ALP),
         )
 
 
@@ -247,10 +247,8 @@ class RadiiBJMixin:
         r4r2: Tensor,
         rvdw: Tensor,
     ) -> Tensor:
-        dd = self.dd  # type: ignore
-
-        a1 = param.get("a1", torch.tensor(defaults.A1, **dd))
-        a2 = param.get("a2", torch.tensor(defaults.A2, **dd))
+        a1 = param.get("a1", defaults.A1)
+        a2 = param.get("a2", defaults.A2)
         return (
             a1 * storch.sqrt(3.0 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)) + a2
         )
@@ -265,8 +263,7 @@ class RadiiVDWMixin:
         r4r2: Tensor,
         rvdw: Tensor,
     ) -> Tensor:
-        dd = self.dd  # type: ignore
-        rs9 = param.get("rs9", torch.tensor(defaults.RS9, **dd))
+        rs9 = param.get("rs9", defaults.RS9)
         return rs9 * rvdw
 
 
-- 
2.43.0


From 9755d0f3f7f276ccd03eeab719fd295211b9cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:33 +0000
Subject: [PATCH 12/24] fix: return each atom's own weighted polarizability in
 the pairwise model

The contraction summed over the wrong atom axis, so every atom received the
average polarizability of the molecule (and padding non-zero values).
---
 src/tad_dftd4/model/d4s.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 4acb65a..efa41b0 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -307,14 +307,14 @@ class D4SModel(BaseModel):
         Tensor
             Weighted polarizabilities of shape ``(..., nat, 23)``.
         """
-        mask = real_atoms(self.numbers)
-        nat = mask.sum(dim=-1, keepdim=True)
+        mask = real_atoms(self.numbers).type(gw.dtype)
+        nat = mask.sum(dim=-1).clamp(min=1.0)[..., None, None]
 
         a = self._get_alpha()
 
-        # Since we sum over one of the atom dimensions here, we need to
+        # Since we sum over the (real) interaction partners here, we need to
         # divide by the number of atoms.
-        return einsum("...mnr,...nrw->...mw", gw, a) / nat
+        return einsum("...m,...mnr,...nrw->...nw", mask, gw, a) / nat
 
 
 class D4SDebug(D4SModel):
-- 
2.43.0


From e1edfbb03e2471ad092e94bf1ae48a126bf8dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:04 +0000
Subject: [PATCH 13/24] fix: return one static polarizability per atom in the
 pairwise model

The inherited contraction ignored the pair axis of the weights: it returned
an (nat, nat) matrix for single systems and failed for batches.
---
 src/tad_dftd4/model/d4s.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index efa41b0..903a1d1 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -290,6 +290,23 @@ class D4SModel(BaseModel):
             optimize=[(0, 1), (0, 1)],
         )
 
+    def get_polarizabilities(self, weights: Tensor) -> Tensor:
+        """
+        Calculate static polarizabilities for all atoms.
+
+        Parameters
+        ----------
+        weights : Tensor
+            Weights for the atomic reference systems of shape
+            ``(..., nat, nat, nref)``.
+
+        Returns
+        -------
+        Tensor
+            Polarizabilities of shape ``(..., nat)``.
+        """
+        return self.get_weighted_pols(weights)[..., 0]
+
     def get_weighted_pols(self, gw: Tensor) -> Tensor:
         """
         Calculate the weighted polarizabilities for each atom and frequency.
-- 
2.43.0


From 517d8fd574d10590cf05dbe1a6c138b1eda52813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:57 +0000
Subject: [PATCH 14/24] fix: build the debug model's weighting factors for
 batches of any shape

The factors were sized by the leading dimension, i.e. by the batch size for
batched input.
---
 src/tad_dftd4/model/d4s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 903a1d1..631ddf6 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -343,5 +343,5 @@ class D4SDebug(D4SModel):
 
     def _get_wf(self) -> Tensor:
         """Pairwise weighting factor."""
-        s = self.numbers.size(0)
-        return torch.full((s, s), WF_DEFAULT, **self.dd)
+        shp = (*self.numbers.shape, self.numbers.shape[-1])
+        return torch.full(shp, WF_DEFAULT, **self.dd)
-- 
2.43.0


From 8593c82ace54668b41a64995a8f874203b5e7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:33 +0000
Subject: [PATCH 15/24] fix: accept one total charge per molecule for every
 batch shape

---
 src/tad_dftd4/disp.py            | 4 ++++
 src/tad_dftd4/dispersion/base.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 62436c5..aa40d67 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -186,6 +186,10 @@ def get_properties(
     else:
         charge = any_to_tensor(charge, **dd)
 
+    # one total charge per molecule: (...) -> (..., 1)
+    if numbers.ndim > 1 and charge.shape == numbers.shape[:-1]:
+        charge = charge.unsqueeze(-1)
+
     cn = cn_d4(numbers, positions)
     q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)
 
diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index f7202a7..23960b6 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -414,6 +414,10 @@ class Disp(TensorLike):
             # pylint: disable=import-outside-toplevel
             from tad_multicharge import get_eeq_charges
 
+            # one total charge per molecule: (...) -> (..., 1)
+            if numbers.ndim > 1 and charge.shape == numbers.shape[:-1]:
+                charge = charge.unsqueeze(-1)
+
             q = get_eeq_charges(
                 numbers, positions, charge, cutoff=cutoff.cn_eeq
             )
-- 
2.43.0


From bb6a8d1ab6de3dad9b0fbab83ff2eeb4df40e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:33 +0000
Subject: [PATCH 16/24] fix: default total charge of batches in the property
 function

---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index aa40d67..9ef390e 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -182,7 +182,7 @@ def get_properties(
         cutoff = Cutoff(**dd)
 
     if charge is None:
-        charge = torch.tensor(0.0, **dd)
+        charge = torch.zeros(numbers.shape[:-1], **dd)
     else:
         charge = any_to_tensor(charge, **dd)
 
-- 
2.43.0


From 49cdb8eb90423259acb0812c7416d291a63f67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:26 +0000
Subject: [PATCH 17/24] fix: keep padding out of the damping function of the
 three-body energy

Padded triples have zero van der Waals radii, so second derivatives with
respect to the exponent were NaN in padded batches.
---
 src/tad_dftd4/dispersion/threebody.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 3787b6f..5710400 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -136,7 +136,8 @@ def get_atm_dispersion(
             # dividing by tiny numbers leads to huge numbers, which result in
             # NaN's upon exponentiation in the subsequent step
             torch.where(mask_triples, r1, one),
-            r0,
+            # padding has zero radii, which give NaN second derivatives
+            torch.where(mask_triples, r0, one),
             order=9,
             alp=alp / 3.0,
             only_damping=True,
-- 
2.43.0


From d1584c00530f0a0a5a196a54159e54d1843e202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:32 +0000
Subject: [PATCH 18/24] fix: keep gradients finite for atoms far beyond the
 cutoffs

Powers of huge distances overflow in single precision, which made the
gradients of pairs and triples that do not contribute NaN.
---
 src/tad_dftd4/dispersion/threebody.py | 14 ++++++++++----
 src/tad_dftd4/dispersion/twobody.py   |  4 ++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 5710400..2e945ef 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -124,6 +124,15 @@ def get_atm_dispersion(
     r2jk = distances.unsqueeze(-3)
     r2 = r2ij * r2ik * r2jk
     r1 = torch.sqrt(r2)
+
+    # the powers of huge distances beyond the cutoff overflow
+    mask_triples = (
+        mask_triples
+        * (r2ij <= cutoff2)
+        * (r2ik <= cutoff2)
+        * (r2jk <= cutoff2)
+    )
+
     # add epsilon to avoid zero division later
     r3 = torch.where(mask_triples, r1 * r2, eps)
     r5 = torch.where(mask_triples, r2 * r3, eps)
@@ -152,10 +161,7 @@ def get_atm_dispersion(
     )
 
     ang = torch.where(
-        mask_triples
-        * (r2ij <= cutoff2)
-        * (r2ik <= cutoff2)
-        * (r2jk <= cutoff2),
+        mask_triples,
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
     )
diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index 6d2ae60..62775d0 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -146,6 +146,10 @@ def dispersion2(
         torch.tensor(1.0, **dd),
     )
 
+    # The same holds for huge distances beyond the cutoff in single precision.
+    mask = mask * (distances <= cutoff)
+    distances = torch.where(mask, distances, torch.tensor(1.0, **dd))
+
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
     c8 = c6 * qq
 
-- 
2.43.0


From ab759d696a671660e80a9a478b1c60051d73e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:51 +0000
Subject: [PATCH 19/24] fix: check both dimensions of supplied van der Waals
 radii

Radii of shape (nat, 1) were accepted and silently broadcast.
---
 src/tad_dftd4/dispersion/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 23960b6..cd1aced 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -392,7 +392,7 @@ class Disp(TensorLike):
 
         if rvdw is None:
             rvdw = self.get_rvdw(numbers)
-        if numbers.shape != rvdw.shape[:-1]:
+        if rvdw.shape != (*numbers.shape, numbers.shape[-1]):
             raise ValueError(
                 f"Shape of van der Waals radii ({rvdw.shape}) is not "
                 f"consistent with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From 002665446e55c1a20d242c822b6ff7b93edfce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:12 +0000
Subject: [PATCH 20/24] fix: honour only_damping in every damping scheme

Rational, modified-zero and optimised-power damping ignored the documented
argument and returned the damping function divided by the distance's power.
---
 src/tad_dftd4/damping/functions.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 1b20a4f..e921c96 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -302,7 +302,12 @@ class RationalDamping(Damping):
         assert a1 is not None and a2 is not None
 
         radius = a1 * torch.sqrt(radii) + a2
-        return 1.0 / (distances.pow(order) + radius.pow(order))
+        t_n = 1.0 / (distances.pow(order) + radius.pow(order))
+
+        if only_damping is True:
+            return t_n * distances.pow(order)
+
+        return t_n
 
 
 class ZeroDamping(Damping):
@@ -429,8 +434,12 @@ class MZeroDamping(Damping):
         # t6 = (r1 / (rs6*r0ij) + bet*r0ij)**(-alp6)
         t_n = distances / (rs * radii) + bet * radii
 
-        # f6 / r6
         fn = 1.0 / (1.0 + 6.0 * t_n ** (-alp_n))
+
+        if only_damping is True:
+            return fn
+
+        # f6 / r6
         return storch.divide(fn, distances**order)
 
 
@@ -481,7 +490,12 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * radius**order)
+        t_n = rb / (rb * distances**order + ab * radius**order)
+
+        if only_damping is True:
+            return t_n * distances**order
+
+        return t_n
 
 
 class ZDamping(Damping):
-- 
2.43.0


From c00e296e3fd3ea2684fbf0c1a06bad45d349bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 21/24] fix: avoid underflow in the analytic CN derivative of
 the weights

---
 src/tad_dftd4/model/d4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 98eeb9c..19c4488 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -251,7 +251,8 @@ class D4Model(BaseModel):
             # no mask needed here, already masked in `dexpw`
             dnorm = torch.sum(dexpw, dim=-1, keepdim=True)
 
-            _dgw = (dexpw - expw * dnorm / norm) / norm
+            # divide first: the product of two tiny numbers would underflow
+            _dgw = (dexpw - expw / norm * dnorm) / norm
             dgw = torch.where(
                 is_exceptional(_dgw, self.dtype), zero, _dgw.type(self.dtype)
             )
-- 
2.43.0


From 6dcf4b325b4f41a11c30332a728e904d20d0a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:09 +0000
Subject: [PATCH 22/24] fix: keep the precision of a total charge given as a
 Python number

---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 9ef390e..15ddb2f 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -136,7 +136,7 @@ def dftd4(
     return disp.calculate(
         numbers,
         positions,
-        any_to_tensor(charge),
+        any_to_tensor(charge, **dd),
         param,
         cutoff=cutoff,
         q=q,
-- 
2.43.0


From 01f71568b45ed46322adf364c9c0184f7315a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:17 +0000
Subject: [PATCH 23/24] fix: store supplied reference C6 coefficients in the
 model's type

---
 src/tad_dftd4/model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index ce8635f..94746f9 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -148,7 +148,7 @@ class BaseModel(TensorLike):
         self.ref_charges = ref_charges
 
         self.wf = self._get_wf() if wf is None else any_to_tensor(wf, **self.dd)
-        self.rc6 = self._get_refc6() if rc6 is None else rc6
+        self.rc6 = self._get_refc6() if rc6 is None else rc6.to(**self.dd)
 
     def _clone_tensorlike(
         self,
-- 
2.43.0


From 62c10a2297c57e16af6f5046d599a4287d4728d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:35 +0000
Subject: [PATCH 24/24] fix: keep second derivatives finite when the Gaussian
 weights are tiny

---
 src/tad_dftd4/model/d4.py  | 12 +++++++++---
 src/tad_dftd4/model/d4s.py | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 19c4488..8b323d4 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -199,10 +199,16 @@ class D4Model(BaseModel):
         # some elements (Mg, e.g. in MB16_43/03).
         total = torch.sum(expw, dim=-1, keepdim=True)
         underflow = mask & (total < 1e-300)
+        one = torch.tensor(1.0, device=self.device, dtype=torch.double)
+
+        # The constant scaling cancels in the weights, but keeps the second
+        # derivative of the division by tiny numbers from overflowing.
+        scale = torch.where(mask & ~underflow, total.detach(), one)
+        expw = expw / scale
         norm = torch.where(
             mask & ~underflow,
-            total,
-            torch.tensor(1.0, device=self.device, dtype=torch.double),
+            torch.sum(expw, dim=-1, keepdim=True),
+            one,
         )
 
         # back to real dtype
@@ -246,7 +252,7 @@ class D4Model(BaseModel):
 
             wf_1 = torch.where(refc == 1, _dpow(1), zero_double)
             wf_3 = torch.where(refc == 3, _dpow(3), zero_double)
-            dexpw = wf_1 + wf_3
+            dexpw = (wf_1 + wf_3) / scale
 
             # no mask needed here, already masked in `dexpw`
             dnorm = torch.sum(dexpw, dim=-1, keepdim=True)
diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 631ddf6..006277d 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -217,10 +217,16 @@ class D4SModel(BaseModel):
         # some elements (Mg, e.g. in MB16_43/03).
         total = torch.sum(expw, dim=-1, keepdim=True)
         underflow = mask & (total < 1e-300)
+        one = torch.tensor(1.0, device=self.device, dtype=torch.double)
+
+        # The constant scaling cancels in the weights, but keeps the second
+        # derivative of the division by tiny numbers from overflowing.
+        scale = torch.where(mask & ~underflow, total.detach(), one)
+        expw = expw / scale
         norm = torch.where(
             mask & ~underflow,
-            total,
-            torch.tensor(1.0, device=self.device, dtype=torch.double),
+            torch.sum(expw, dim=-1, keepdim=True),
+            one,
         )
 
         # back to real dtype
-- 
2.43.0

