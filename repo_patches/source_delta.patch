From a9628b962f1fb08d6e94c9567ca02e4e2f9c22a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:01 +0000
Subject: [PATCH 1/5] fix: convert the total charge in the precision of the
 positions

dftd4() turned a Python float charge into a tensor of the process-wide
default dtype before handing it on, so a fractional charge was rounded to
single precision in a double precision calculation and the result depended
on torch.set_default_dtype().
---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 62436c5..aa5daa9 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -136,7 +136,7 @@ def dftd4(
     return disp.calculate(
         numbers,
         positions,
-        any_to_tensor(charge),
+        any_to_tensor(charge, **dd),
         param,
         cutoff=cutoff,
         q=q,
-- 
2.43.0


From 396eae1ff4a595397d39f143dc7466c9b3ba29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:01 +0000
Subject: [PATCH 2/5] fix: default a1 and a2 of the ATM radii in the precision
 of the input

Terms are created without a dtype, so self.dd is the process-wide default
dtype and the default a1=0.4 was rounded to single precision in a double
precision calculation; the result depended on torch.set_default_dtype().
---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index d692a13..041ae7a 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -247,7 +247,7 @@ class RadiiBJMixin:
         r4r2: Tensor,
         rvdw: Tensor,
     ) -> Tensor:
-        dd = self.dd  # type: ignore
+        dd: DD = {"device": r4r2.device, "dtype": r4r2.dtype}
 
         a1 = param.get("a1", torch.tensor(defaults.A1, **dd))
         a2 = param.get("a2", torch.tensor(defaults.A2, **dd))
-- 
2.43.0


From a439cdc6f48a78405e293ec81e8fbfe4d09aed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:01 +0000
Subject: [PATCH 3/5] fix: look up functionals case-insensitively

The membership test used the name as given, so get_params(functional="PBE")
raised KeyError although names are documented as case-insensitive.
---
 src/tad_dftd4/damping/parameters/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 0be7c12..4d0f25b 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -101,7 +101,7 @@ def get_params(
         disp_method_section = default_section["parameter"]
     else:
         func_section = table["parameter"]
-        if functional not in func_section:
+        if functional.casefold() not in func_section:
             raise KeyError(
                 f"Functional '{functional!r}' not found in damping parameters."
             )
-- 
2.43.0


From 62e357c63121b70f893f8d4fc74951dff19e2261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:36 +0000
Subject: [PATCH 4/5] fix: load the reference tables when the models are
 imported

They were imported on first use. When that happened inside a function
transform (torch.func.jacrev, ...), the module-level tables became wrapped
tensors of that transform and every later calculation failed.
---
 src/tad_dftd4/model/base.py | 16 +++++-----------
 src/tad_dftd4/model/d4.py   | 12 +++++-------
 src/tad_dftd4/model/d4s.py  | 16 +++++-----------
 3 files changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index db64219..5962562 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -49,6 +49,9 @@ from tad_mctc.math import einsum
 from tad_mctc.typing import Literal, Tensor, TensorLike, overload
 
 from .. import data
+from ..reference import d4 as reference
+from ..reference.d4.charge_eeq import clsh as clsh_eeq
+from ..reference.d4.charge_gfn2 import refh as refh_gfn2
 from ..utils import trapzd
 
 __all__ = ["BaseModel", "WF_DEFAULT"]
@@ -373,9 +376,6 @@ class BaseModel(TensorLike):
         Tensor
             Reference polarizabilities of shape `(..., nat, ref, 23)`.
         """
-        # pylint: disable=import-outside-toplevel
-        from ..reference import d4 as reference
-
         zero = torch.tensor(0.0, **self.dd)
 
         refsys = reference.refsys.to(self.device)[self.numbers]
@@ -386,15 +386,9 @@ class BaseModel(TensorLike):
         secalpha = reference.secalpha.to(**self.dd)
 
         if self.ref_charges == "eeq":
-            # pylint: disable=import-outside-toplevel
-            from ..reference.d4.charge_eeq import clsh as _refsq
-
-            refsq = _refsq.to(**self.dd)[self.numbers]
+            refsq = clsh_eeq.to(**self.dd)[self.numbers]
         elif self.ref_charges == "gfn2":
-            # pylint: disable=import-outside-toplevel
-            from ..reference.d4.charge_gfn2 import refh as _refsq
-
-            refsq = _refsq.to(**self.dd)[self.numbers]
+            refsq = refh_gfn2.to(**self.dd)[self.numbers]
         else:
             raise ValueError(f"Unknown reference charges: {self.ref_charges}")
 
diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 8463e20..75b8686 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -45,6 +45,9 @@ from tad_mctc.math import einsum
 from tad_mctc.typing import Literal, Tensor, overload
 
 from .. import data
+from ..reference import d4 as d4ref
+from ..reference.d4.charge_eeq import clsq as clsq_eeq
+from ..reference.d4.charge_gfn2 import refq as refq_gfn2
 from ..utils import is_exceptional
 from .base import WF_DEFAULT, BaseModel
 
@@ -140,17 +143,12 @@ class D4Model(BaseModel):
             q = torch.zeros(self.numbers.shape, **self.dd)
 
         if self.ref_charges == "eeq":
-            # pylint: disable=import-outside-toplevel
-            from ..reference.d4.charge_eeq import clsq as _refq
+            _refq = clsq_eeq
         elif self.ref_charges == "gfn2":
-            # pylint: disable=import-outside-toplevel
-            from ..reference.d4.charge_gfn2 import refq as _refq
+            _refq = refq_gfn2
         else:
             raise ValueError(f"Unknown reference charges: {self.ref_charges}")
 
-        # pylint: disable=import-outside-toplevel
-        from ..reference import d4 as d4ref
-
         refq = _refq.to(**self.dd)[self.numbers]
 
         zero = torch.tensor(0.0, **self.dd)
diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 539dab0..f0561a1 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -47,6 +47,9 @@ from tad_mctc.math import einsum
 from tad_mctc.typing import Literal, Tensor, overload
 
 from .. import data
+from ..reference import d4 as d4ref
+from ..reference.d4.charge_eeq import clsq as clsq_eeq
+from ..reference.d4.charge_gfn2 import refq as refq_gfn2
 from ..utils import is_exceptional
 from .base import WF_DEFAULT, BaseModel
 
@@ -146,21 +149,12 @@ class D4SModel(BaseModel):
             q = torch.zeros(self.numbers.shape, **self.dd)
 
         if self.ref_charges == "eeq":
-            # pylint: disable=import-outside-toplevel
-            from ..reference.d4.charge_eeq import clsq as _refq
-
-            refq = _refq.to(**self.dd)[self.numbers]
+            refq = clsq_eeq.to(**self.dd)[self.numbers]
         elif self.ref_charges == "gfn2":
-            # pylint: disable=import-outside-toplevel
-            from ..reference.d4.charge_gfn2 import refq as _refq
-
-            refq = _refq.to(**self.dd)[self.numbers]
+            refq = refq_gfn2.to(**self.dd)[self.numbers]
         else:
             raise ValueError(f"Unknown reference charges: {self.ref_charges}")
 
-        # pylint: disable=import-outside-toplevel
-        from ..reference import d4 as d4ref
-
         zero = torch.tensor(0.0, **self.dd)
         zero_double = torch.tensor(0.0, device=self.device, dtype=torch.double)
 
-- 
2.43.0


From 5859795bfd568a17e9d994dd39dc51638b21f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:04 +0000
Subject: [PATCH 5/5] fix: give a converted dispersion object its own list of
 terms

`Disp.type` and `Disp.to` return a copy, which shared the list of terms with
the original: registering a term on one of them changed the energies of both.
---
 src/tad_dftd4/dispersion/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 7d4fd34..ccf379f 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -218,6 +218,12 @@ class Disp(TensorLike):
     def deregister(self, term: DispTerm) -> None:
         self.terms.remove(term)
 
+    def _clone_tensorlike(self, **kwargs: Any) -> Disp:
+        new = super()._clone_tensorlike(**kwargs)
+        # terms (de)registered on the copy must not affect the original
+        new.terms = self.terms.copy()
+        return new
+
     def get_model(self, numbers: Tensor) -> ModelInst:
         """
         Get the DFT-D4 model for the given atomic numbers.
-- 
2.43.0

