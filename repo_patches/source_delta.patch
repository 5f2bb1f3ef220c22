From df7c7677502df2a103b2bc6e084208e87a6f013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 01/67] fix: Hubbard2D site index inconsistent with site
 coordinates and tile order

---
 vayesta/lattmod/latt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/lattmod/latt.py b/vayesta/lattmod/latt.py
index 03400ce..473169f 100644
--- a/vayesta/lattmod/latt.py
+++ b/vayesta/lattmod/latt.py
@@ -262,7 +262,8 @@ class Hubbard2D(Hubbard):
             fac *= bfac[0]
         if j % self.nsites[1] != j:
             fac *= bfac[1]
-        idx = (i % self.nsites[0]) * self.nsites[1] + (j % self.nsites[1])
+        # Same site order as in `atom_coords` and `get_tiles_order` (first direction is fastest)
+        idx = (j % self.nsites[1]) * self.nsites[0] + (i % self.nsites[0])
         return idx, fac
 
     def get_eri(self, hubbard_u=None, v_nn=None):
-- 
2.43.0


From 9a6f121b8ad930085b6bb5f256116704965b75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 02/67] fix: treat 'periodic' lattice boundary as periodic in
 translation symmetry

---
 vayesta/core/symmetry/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index 85ffe88..f963140 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -300,7 +300,7 @@ class SymmetryTranslation(SymmetryOperation):
 
     @property
     def boundary_phases(self):
-        return np.asarray([1 if (b.lower() == "pbc") else -1 for b in self.boundary])
+        return np.asarray([1 if (b.lower() in ("pbc", "periodic")) else -1 for b in self.boundary])
 
     @property
     def vector_xyz(self):
-- 
2.43.0


From d1065f841e4fea8d20704af695c2ac923b2f701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 03/67] fix: discard cached density matrix of a previous run in
 EWF.kernel

---
 vayesta/ewf/ewf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 94c4ff1..de1f512 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -110,6 +110,8 @@ class EWF(Embedding):
             with self.fragmentation() as frag:
                 frag.add_all_atomic_fragments()
         self._check_fragment_nelectron()
+        # Discard density-matrices of previous calculations
+        self._make_rdm1_ccsd_global_wf_cached.cache_clear()
 
         # Debug: calculate exact WF
         if self.opts._debug_wf is not None:
-- 
2.43.0


From 8544e75e4b9b9136913f867ca2dbbe3a00f497e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 04/67] fix: do not share default option dictionaries between
 objects

---
 vayesta/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/util.py b/vayesta/core/util.py
index 38e3863..8c15fac 100644
--- a/vayesta/core/util.py
+++ b/vayesta/core/util.py
@@ -702,7 +702,7 @@ class OptionsBase:
 
     @staticmethod
     def dict_with_defaults(**kwargs):
-        return dataclasses.field(default_factory=lambda: kwargs)
+        return dataclasses.field(default_factory=lambda: dict(kwargs))
 
     @classmethod
     def change_dict_defaults(cls, field, **kwargs):
-- 
2.43.0


From 2eb0fffe3be3c2ae600dee4bc783491460667891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 05/67] fix: get_fragments ignored the option criteria if flags
 were given as well

---
 vayesta/core/qemb/qemb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 958ca89..11a808a 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1152,6 +1152,8 @@ class Embedding:
                 skip = _skip(attr, filt)
                 if skip:
                     break
+            if skip:
+                continue
             # Check flags:
             for key, filt in flags.items():
                 attr = getattr_recursive(frag.flags, key)
-- 
2.43.0


From 6090acac620de1d8fb752bf1bfe25694cb1234d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 06/67] fix: packing of arrays with NumPy 2 (type code 'a' was
 removed)

---
 vayesta/core/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/helper.py b/vayesta/core/helper.py
index 9023c8f..13ddbff 100644
--- a/vayesta/core/helper.py
+++ b/vayesta/core/helper.py
@@ -19,14 +19,14 @@ def orbital_sign_convention(mo_coeff, inplace=True):
 def get_dtype_int(obj):
     if obj is None:
         return 0
-    dtint = np.asarray(obj.dtype.char, dtype="a8").view(int)[()]
+    dtint = np.asarray(obj.dtype.char, dtype="S8").view(int)[()]
     return dtint
 
 
 def get_dtype(dtint):
     if dtint == 0:
         return None
-    val = np.asarray(dtint).view("a8")[()]
+    val = np.asarray(dtint).view("S8")[()]
     dtype = np.dtype(val)
     return dtype
 
-- 
2.43.0


From 38afc6ac9252247c91ad7a945617ab9e0c84576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 07/67] fix: undefined names in spinalg.eigh and
 setattr_recursive

---
 vayesta/core/spinalg.py | 1 +
 vayesta/core/util.py    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/spinalg.py b/vayesta/core/spinalg.py
index 67c81ce..3f85437 100644
--- a/vayesta/core/spinalg.py
+++ b/vayesta/core/spinalg.py
@@ -2,6 +2,7 @@
 same functions"""
 
 import numpy as np
+import scipy.linalg
 from vayesta.core import util
 
 __all__ = ["add_numbers", "hstack_matrices"]
diff --git a/vayesta/core/util.py b/vayesta/core/util.py
index 8c15fac..14aa43f 100644
--- a/vayesta/core/util.py
+++ b/vayesta/core/util.py
@@ -563,7 +563,7 @@ def getattr_recursive(obj, attr, *args):
 
 def setattr_recursive(obj, attr, val):
     pre, _, post = attr.rpartition(".")
-    return setattr(rgetattr(obj, pre) if pre else obj, post, val)
+    return setattr(getattr_recursive(obj, pre) if pre else obj, post, val)
 
 
 @contextmanager
-- 
2.43.0


From 5f9ea6a77088da378a800835fd4ffcee19257aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 08/67] fix: unrestricted EBCC wave function lost the fourth
 spin-block of projected amplitudes; copy/as_ccsd without bosons

---
 vayesta/core/types/ebwf/ebcc.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/vayesta/core/types/ebwf/ebcc.py b/vayesta/core/types/ebwf/ebcc.py
index d2e13e5..eb16e28 100644
--- a/vayesta/core/types/ebwf/ebcc.py
+++ b/vayesta/core/types/ebwf/ebcc.py
@@ -175,12 +175,18 @@ class REBCC_WaveFunction(EBWavefunction, RCCSD_WaveFunction):
             deepcopy(self.lambdas),
             None if self.mbos is None else self.mbos.copy(),
             proj,
+            xi=self.xi,
         )
 
     def as_ccsd(self):
         proj = callif(spinalg.copy, self.projector)
         return type(self)(
-            self.mo.copy(), "CCSD", deepcopy(self.amplitudes), deepcopy(self.lambdas), self.mbos.copy(), proj
+            self.mo.copy(),
+            "CCSD",
+            deepcopy(self.amplitudes),
+            deepcopy(self.lambdas),
+            None if self.mbos is None else self.mbos.copy(),
+            proj,
         )
 
     def rotate_ov(self, *args, **kwargs):
@@ -223,10 +229,6 @@ class UEBCC_WaveFunction(REBCC_WaveFunction, UCCSD_WaveFunction):
 
     @property
     def t2ba(self):
-        return self.amplitudes.t2.abab.transpose(1, 0, 3, 2)
-
-    @property
-    def l2ba(self):
         if "baba" in self.amplitudes.t2:
             return self.amplitudes.t2.baba
         else:
@@ -238,6 +240,9 @@ class UEBCC_WaveFunction(REBCC_WaveFunction, UCCSD_WaveFunction):
 
     @property
     def t2(self):
+        # Projected amplitudes have an independent fourth spin-block
+        if "baba" in self.amplitudes.t2:
+            return (self.t2aa, self.t2ab, self.t2ba, self.t2bb)
         return (self.t2aa, self.t2ab, self.t2bb)
 
     @t2.setter
@@ -247,6 +252,8 @@ class UEBCC_WaveFunction(REBCC_WaveFunction, UCCSD_WaveFunction):
         self.amplitudes.t2.bbbb = 0.5 * value[-1]
         if len(value) == 4:
             self.amplitudes.t2.baba = value[2]
+        elif "baba" in self.amplitudes.t2:
+            self.amplitudes.t2.pop("baba")
 
     @property
     def l1a(self):
@@ -282,7 +289,7 @@ class UEBCC_WaveFunction(REBCC_WaveFunction, UCCSD_WaveFunction):
         if self.lambdas is None:
             return None
         if "baba" in self.lambdas.l2:
-            return self.lambdas.l2.baba
+            return self.lambdas.l2.baba.transpose(2, 3, 0, 1)
         else:
             return self.l2ab.transpose(1, 0, 3, 2)
 
@@ -292,7 +299,11 @@ class UEBCC_WaveFunction(REBCC_WaveFunction, UCCSD_WaveFunction):
 
     @property
     def l2(self):
-        return None if self.lambdas is None else (self.l2aa, self.l2ab, self.l2bb)
+        if self.lambdas is None:
+            return None
+        if "baba" in self.lambdas.l2:
+            return (self.l2aa, self.l2ab, self.l2ba, self.l2bb)
+        return (self.l2aa, self.l2ab, self.l2bb)
 
     @l2.setter
     def l2(self, value):
@@ -305,6 +316,8 @@ class UEBCC_WaveFunction(REBCC_WaveFunction, UCCSD_WaveFunction):
         self.lambdas.l2.bbbb = value[-1].transpose(2, 3, 0, 1) / 2.0
         if len(value) == 4:
             self.lambdas.l2.baba = value[2].transpose(2, 3, 0, 1)
+        elif "baba" in self.lambdas.l2:
+            self.lambdas.l2.pop("baba")
 
     def _pack_codegen_kwargs(self, *extra_kwargs, eris=False):
         """
-- 
2.43.0


From 08fa00c46ada61dd23da401107577cd9338e9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 09/67] fix: RCCSDTQ_WaveFunction.as_cisd ignored c0

---
 vayesta/core/types/wf/ccsdtq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsdtq.py b/vayesta/core/types/wf/ccsdtq.py
index af25802..5c132e8 100644
--- a/vayesta/core/types/wf/ccsdtq.py
+++ b/vayesta/core/types/wf/ccsdtq.py
@@ -33,7 +33,7 @@ class RCCSDTQ_WaveFunction(wf_types.WaveFunction):
         return wf_types.CCSD_WaveFunction(self.mo, self.t1, self.t2)
 
     def as_cisd(self, c0=1.0):
-        return self.as_ccsd().as_cisd()
+        return self.as_ccsd().as_cisd(c0=c0)
 
 
 class UCCSDTQ_WaveFunction(RCCSDTQ_WaveFunction):
-- 
2.43.0


From 1dd515490f827254dc2a985250731bb16b83307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 10/67] fix: UCISD_WaveFunction.as_ccsd used the ab block for
 the ba block

---
 vayesta/core/types/wf/cisd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/cisd.py b/vayesta/core/types/wf/cisd.py
index cdd683a..e1cd551 100644
--- a/vayesta/core/types/wf/cisd.py
+++ b/vayesta/core/types/wf/cisd.py
@@ -161,7 +161,7 @@ class UCISD_WaveFunction(RCISD_WaveFunction):
         if len(self.c2) == 3:
             t2 = (t2aa, t2ab, t2bb)
         elif len(self.c2) == 4:
-            t2ba = self.c2ab / self.c0 - einsum("ia,jb->ijab", t1b, t1a)
+            t2ba = self.c2ba / self.c0 - einsum("ia,jb->ijab", t1b, t1a)
             t2 = (t2aa, t2ab, t2ba, t2bb)
         l1, l2 = t1, t2
         wf = wf_types.UCCSD_WaveFunction(self.mo, t1, t2, l1=l1, l2=l2, projector=self.projector)
-- 
2.43.0


From 42ee8161872e4146ffb680ae8ba4318658a84574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 11/67] fix: copy of FCI wave functions with dummy orbitals;
 RFCI as_mp2 raised a wave function

---
 vayesta/core/types/wf/fci.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/fci.py b/vayesta/core/types/wf/fci.py
index a24083e..7562a91 100644
--- a/vayesta/core/types/wf/fci.py
+++ b/vayesta/core/types/wf/fci.py
@@ -119,7 +119,7 @@ class RFCI_WaveFunction(wf_types.WaveFunction):
         return UFCI_WaveFunction(mo, self.ci)
 
     def as_mp2(self):
-        raise self.as_cisd().as_mp2()
+        return self.as_cisd().as_mp2()
 
     def as_cisd(self, c0=None):
         if self.projector is not None:
@@ -514,6 +514,10 @@ class UFCI_WaveFunction_w_dummy(UFCI_WaveFunction):
                 % (norb[0], norb[1], self.ndummy[0], self.norb[0], self.ndummy[1], self.norb[1])
             )
 
+    def copy(self):
+        proj = callif(spinalg.copy, self.projector)
+        return type(self)(self.mo.copy(), spinalg.copy(self.ci), self.dummy_orbs, projector=proj)
+
     @property
     def ndummy(self):
         return tuple([len(x) for x in self.dummy_orbs])
-- 
2.43.0


From 222564e714f949dccef6aafb8e9ff73808ba27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 12/67] fix: undefined names in RRDM_WaveFunction.pack/unpack;
 URDM dm2ba

---
 vayesta/core/types/wf/rdm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/types/wf/rdm.py b/vayesta/core/types/wf/rdm.py
index 52d05be..63b2822 100644
--- a/vayesta/core/types/wf/rdm.py
+++ b/vayesta/core/types/wf/rdm.py
@@ -3,6 +3,8 @@ import numpy as np
 from vayesta.core import spinalg
 from vayesta.core.util import dot, einsum, callif
 from vayesta.core.types import wf as wf_types
+from vayesta.core.types.orbitals import SpatialOrbitals
+from vayesta.core.helper import pack_arrays, unpack_arrays
 from vayesta.core.types.wf.project import (
     project_c1,
     project_c2,
@@ -88,7 +90,7 @@ class RRDM_WaveFunction(wf_types.WaveFunction):
 
         Useful for communication via MPI."""
         mo = self.mo.pack(dtype=dtype)
-        data = (mo, dm1, dm2, self.projector)
+        data = (mo, self.dm1, self.dm2, self.projector)
         pack = pack_arrays(*data, dtype=dtype)
         return pack
 
@@ -134,7 +136,7 @@ class URDM_WaveFunction(RRDM_WaveFunction):
     def dm2ba(self):
         if len(self.dm2) == 4:
             return self.dm2[2]
-        return self.dm2[2].transpose(1, 0, 3, 2)
+        return self.dm2ab.transpose(2, 3, 0, 1)
     
     @property
     def dm2bb(self):
-- 
2.43.0


From 26f4f1f0e50521571ced1376c38587b7facdec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 13/67] fix: wave-function multiply scaled amplitudes shared
 between T, Lambda and other wave functions

---
 vayesta/core/types/wf/ccsd.py | 9 +++++----
 vayesta/core/types/wf/mp2.py  | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 1e19182..5fdcc38 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -99,12 +99,13 @@ class RCCSD_WaveFunction(wf_types.WaveFunction):
         return dm2
 
     def multiply(self, factor):
-        self.t1 *= factor
-        self.t2 *= factor
+        # Not in-place: T- and L-amplitudes (or amplitudes of other wave functions) can share the same memory
+        self.t1 = factor * self.t1
+        self.t2 = factor * self.t2
         if self.l1 is not None:
-            self.l1 *= factor
+            self.l1 = factor * self.l1
         if self.l2 is not None:
-            self.l2 *= factor
+            self.l2 = factor * self.l2
 
     def project(self, projector, inplace=False):
         wf = self if inplace else self.copy()
diff --git a/vayesta/core/types/wf/mp2.py b/vayesta/core/types/wf/mp2.py
index 7da5511..428fe58 100644
--- a/vayesta/core/types/wf/mp2.py
+++ b/vayesta/core/types/wf/mp2.py
@@ -66,7 +66,8 @@ class RMP2_WaveFunction(wf_types.WaveFunction):
         return UMP2_WaveFunction(mo, t2)
 
     def multiply(self, factor):
-        self.t2 *= factor
+        # Not in-place: amplitudes can be shared with other wave functions
+        self.t2 = factor * self.t2
 
     def project(self, projector, inplace=False):
         wf = self if inplace else self.copy()
-- 
2.43.0


From b38005f3a92301144cf2521fd92d09f5bea0fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 14/67] fix: RCCSD_WaveFunction.as_unrestricted stored a bound
 method as T1 and T as Lambda amplitudes

---
 vayesta/core/types/wf/ccsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 5fdcc38..938b974 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -161,7 +161,7 @@ class RCCSD_WaveFunction(wf_types.WaveFunction):
         mo = self.mo.to_spin_orbitals()
 
         def _to_uccsd(t1, t2):
-            t1, t2 = self.t1.copy, self.t2.copy()
+            t1, t2 = t1.copy(), t2.copy()
             t2aa = t2 - t2.transpose(0, 1, 3, 2)
             return (t1, t1), (t2aa, t2, t2aa)
 
-- 
2.43.0


From a733cad7e43c82fe4c6a05d9600257a1c2aafe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 15/67] fix: UCCSD_WaveFunction.as_cisd scaled the ba block
 with c0 squared

---
 vayesta/core/types/wf/ccsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 938b974..e9c97d8 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -333,7 +333,7 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         if len(self.t2) == 3:
             c2 = (c2aa, c2ab, c2bb)
         elif len(self.t2) == 4:
-            c2ba = c0 * self.t2ba + einsum("ia,jb->ijab", c1b, c1a)
+            c2ba = c0 * (self.t2ba + einsum("ia,jb->ijab", self.t1b, self.t1a))
             c2 = (c2aa, c2ab, c2ba, c2bb)
         return wf_types.UCISD_WaveFunction(self.mo, c0, c1, c2, projector=self.projector)
 
-- 
2.43.0


From 5ac764f2819078b828a3a86b0db6062bd4c6b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:40 +0000
Subject: [PATCH 16/67] fix: UCCSD rotate_ov transformed alpha orbitals with
 the beta rotation, in-place rotation changed shared orbitals

---
 vayesta/core/types/wf/ccsd.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index e9c97d8..618660c 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -215,7 +215,8 @@ class RCCSD_WaveFunction(wf_types.WaveFunction):
         inplace : Whether to transform in-place or return a new object.
         """
         wf = self if inplace else self.copy()
-        wf.mo.basis_transform(lambda c: dot(c, block_diag(to, tv)), inplace=True)
+        # The orbitals can be shared with other wave functions
+        wf.mo = wf.mo.basis_transform(lambda c: dot(c, block_diag(to, tv)))
         wf.t1 = transform_c1(wf.t1, to, tv)
         wf.t2 = transform_c2(wf.t2, to, tv)
         if wf.l1 is not None:
@@ -384,13 +385,14 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         inplace : Whether to transform in-place or return a new object.
         """
         wf = self if inplace else self.copy()
-        if isinstance(to, np.ndarray) and len(to) == 2:
-            assert isinstance(tv, np.ndarray) and len(tv) == 2
-            trafo = lambda c: dot(c, block_diag(to, tv))
-        else:
-            trafo = [lambda c: dot(c, x) for x in (block_diag(to[0], tv[0]), block_diag(to[1], tv[1]))]
+        # Allow support for same rotation for alpha and beta.
+        if isinstance(to, np.ndarray) and to.ndim == 2:
+            assert isinstance(tv, np.ndarray) and tv.ndim == 2
+            to, tv = (to, to), (tv, tv)
+        trafo = [lambda c, x=x: dot(c, x) for x in (block_diag(to[0], tv[0]), block_diag(to[1], tv[1]))]
 
-        wf.mo.basis_transform(trafo, inplace=True)
+        # The orbitals can be shared with other wave functions
+        wf.mo = wf.mo.basis_transform(trafo)
         wf.t1 = transform_uc1(wf.t1, to, tv)
         wf.t2 = transform_uc2(wf.t2, to, tv)
         if wf.l1 is not None:
-- 
2.43.0


From a2ff77d533a76f4e4d8563e308b27be34f14903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:40 +0000
Subject: [PATCH 17/67] fix: packing of unrestricted MP2 and CCSD wave
 functions without projector, Lambda or ba block

---
 vayesta/core/types/wf/ccsd.py | 22 ++++++++++++----------
 vayesta/core/types/wf/mp2.py  | 25 +++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 618660c..5779433 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -407,8 +407,11 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         mo = self.mo.pack(dtype=dtype)
         l1 = self.l1 if self.l1 is not None else [None, None]
         l2 = self.l2 if self.l2 is not None else len(self.t2) * [None]
-        projector = self.projector
-        data = (mo, *self.t1, *self.t2, *l1, *l2, *projector)
+        projector = self.projector if self.projector is not None else [None, None]
+        # Three spin-blocks (unprojected) are stored with t2ba = None
+        t2 = self.t2 if len(self.t2) == 4 else (*self.t2[:2], None, self.t2[-1])
+        l2 = l2 if len(l2) == 4 else (*l2[:2], None, l2[-1])
+        data = (mo, *self.t1, *t2, *l1, *l2, *projector)
         pack = pack_arrays(*data, dtype=dtype)
         return pack
 
@@ -418,12 +421,11 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         Useful for communication via MPI."""
         mo, t1a, t1b, t2aa, t2ab, t2ba, t2bb, l1a, l1b, l2aa, l2ab, l2ba, l2bb, proja, projb = unpack_arrays(packed)
         t1 = (t1a, t1b)
-        t2 = (t2aa, t2ab, t2ba, t2bb)
-        l1 = (l1a, l1b)
-        l2 = (l2aa, l2ab, l2ba, l2bb)
-        projector = (proja, projb)
+        t2 = (t2aa, t2ab, t2ba, t2bb) if t2ba is not None else (t2aa, t2ab, t2bb)
+        l1 = (l1a, l1b) if l1a is not None else None
+        l2 = None
+        if l2aa is not None:
+            l2 = (l2aa, l2ab, l2ba, l2bb) if l2ba is not None else (l2aa, l2ab, l2bb)
+        projector = (proja, projb) if proja is not None else None
         mo = SpinOrbitals.unpack(mo)
-        wf = cls(mo, t1, t2, l1=l1, l2=l2)
-        if projector is not None:
-            wf.projector = projector
-        return wf
+        return cls(mo, t1, t2, l1=l1, l2=l2, projector=projector)
diff --git a/vayesta/core/types/wf/mp2.py b/vayesta/core/types/wf/mp2.py
index 428fe58..3392e02 100644
--- a/vayesta/core/types/wf/mp2.py
+++ b/vayesta/core/types/wf/mp2.py
@@ -2,7 +2,7 @@ import numpy as np
 from vayesta.core import spinalg
 from vayesta.core.util import callif, dot, einsum
 from vayesta.core.types import wf as wf_types
-from vayesta.core.types.orbitals import SpatialOrbitals
+from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
 from vayesta.core.types.wf.project import project_c2, project_uc2, symmetrize_c2, symmetrize_uc2
 from vayesta.core.helper import pack_arrays, unpack_arrays
 
@@ -191,7 +191,28 @@ class UMP2_WaveFunction(RMP2_WaveFunction):
         return wf_types.UCCSD_WaveFunction(self.mo, t1, self.t2, l1=t1, l2=self.t2, projector=self.projector)
 
     def as_fci(self):
-        return NotImplementedError
+        raise NotImplementedError
 
     def multiply(self, factor):
         self.t2 = spinalg.multiply(self.t2, len(self.t2) * [factor])
+
+    def pack(self, dtype=float):
+        """Pack into a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo = self.mo.pack(dtype=dtype)
+        projector = self.projector if self.projector is not None else [None, None]
+        # Three spin-blocks (unprojected) are stored with t2ba = None
+        t2 = self.t2 if len(self.t2) == 4 else (*self.t2[:2], None, self.t2[-1])
+        return pack_arrays(mo, *t2, *projector, dtype=dtype)
+
+    @classmethod
+    def unpack(cls, packed):
+        """Unpack from a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo, t2aa, t2ab, t2ba, t2bb, proja, projb = unpack_arrays(packed)
+        mo = SpinOrbitals.unpack(mo)
+        t2 = (t2aa, t2ab, t2ba, t2bb) if t2ba is not None else (t2aa, t2ab, t2bb)
+        projector = (proja, projb) if proja is not None else None
+        return cls(mo, t2, projector=projector)
-- 
2.43.0


From 91932eea34bf9e10fa1dfd6d1f661e376078ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 18/67] fix: virtual-completeness of restricted fragmentations
 counted electrons as orbitals

---
 vayesta/core/qemb/qemb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 11a808a..3940c28 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1575,10 +1575,12 @@ class Embedding:
             nspin = 1
             tspin = lambda x, s: x
             nelec = self.mol.nelectron
+            max_occ = 2
         elif self.spinsym == "unrestricted":
             nspin = 2
             tspin = lambda x, s: x[s]
             nelec = self.mol.nelec
+            max_occ = 1
         ovlp = self.get_ovlp()
         dm1 = self.mf.make_rdm1()
         for s in range(nspin):
@@ -1601,7 +1603,7 @@ class Embedding:
                 ne = einsum("ia,ab,ib->", cs, tspin(dm1, s), cs)
                 if complete_occupied and (abs(ne - nelec_s) > tol):
                     return False
-                if complete_virtual and (abs((nfrags - ne) - (nmo_s - nelec_s)) > tol):
+                if complete_virtual and (abs((nfrags - ne / max_occ) - (nmo_s - nelec_s / max_occ)) > tol):
                     return False
         return True
 
-- 
2.43.0


From 35faf90a5fb0d83f8c41c7c87f531ba882af1c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 19/67] fix: atomshell fragments selected by atom symbols
 missed all but the first atom of each symbol

---
 vayesta/core/fragmentation/fragmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/fragmentation/fragmentation.py b/vayesta/core/fragmentation/fragmentation.py
index 395d624..ce852fc 100644
--- a/vayesta/core/fragmentation/fragmentation.py
+++ b/vayesta/core/fragmentation/fragmentation.py
@@ -126,9 +126,9 @@ class Fragmentation:
             shells = [shells]
         orbitals = []
         atom_indices, atom_symbols = self.get_atom_indices_symbols(atoms)
-        for idx, sym in zip(atom_indices, atom_symbols):
+        for idx in atom_indices:
             for shell in shells:
-                orbitals.append("%d%3s %s" % (idx, sym, shell))
+                orbitals.append("%d%3s %s" % (idx, self.mol.atom_symbol(idx), shell))
         return self.add_orbital_fragment(orbitals, atoms=atom_indices, **kwargs)
 
     def add_orbital_fragment(self, orbitals, atom_filter=None, name=None, **kwargs):
-- 
2.43.0


From 27afa9b0462b19a17755687c8ace0670a33df44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 20/67] fix: CAS fragments with fewer orbitals than required to
 hold the requested electrons were accepted

---
 vayesta/core/fragmentation/cas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/fragmentation/cas.py b/vayesta/core/fragmentation/cas.py
index adec11d..793c586 100644
--- a/vayesta/core/fragmentation/cas.py
+++ b/vayesta/core/fragmentation/cas.py
@@ -58,7 +58,7 @@ class CAS_Fragmentation(Fragmentation):
             offset += 1
             nelec_curr += int(occ[anyocc[-1] - offset])
 
-        if nelec_curr > nelec or offset > ncas:
+        if nelec_curr > nelec or offset + 1 > ncas:
             raise ValueError("Cannot create CAS with required properties around Fermi level with current MO occupancy.")
 
         def check_for_degen(energies, po, pv, name=""):
-- 
2.43.0


From cda0a36d5504d4a7d1aa8641a1292a8aeab7444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:27 +0000
Subject: [PATCH 21/67] fix: IAO labels of systems with ghost atoms were
 searched with the atom indices of the reference molecule

---
 vayesta/core/fragmentation/iao.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/fragmentation/iao.py b/vayesta/core/fragmentation/iao.py
index a3e4656..9019b58 100644
--- a/vayesta/core/fragmentation/iao.py
+++ b/vayesta/core/fragmentation/iao.py
@@ -1,4 +1,5 @@
 import os.path
+import re
 import numpy as np
 
 import pyscf
@@ -160,7 +161,14 @@ class IAO_Fragmentation(Fragmentation):
         return iao_labels
 
     def search_labels(self, labels):
-        return self.refmol.search_ao_label(labels)
+        if self.refmol.natm == self.mol.natm:
+            return self.refmol.search_ao_label(labels)
+        # Ghost atoms are removed in refmol, the labels need to be compared to the atom IDs of mol (see get_labels)
+        patterns = [re.sub(" +", " ", l.strip(), count=1) for l in ([labels] if isinstance(labels, str) else labels)]
+        patterns = [("^" + p if re.match("[0-9]+ [a-zA-Z]", p) else p) for p in patterns]
+        iao_labels = ["%d %s %s%s" % l for l in self.get_labels()]
+        indices = [i for i, l in enumerate(iao_labels) if any(re.search(p, l) for p in patterns)]
+        return np.asarray(indices, dtype=int)
 
     def get_virtual_coeff(self, c_iao, mo_coeff=None):
         if mo_coeff is None:
-- 
2.43.0


From 7f452cbe7280c3d4b29ba3be5caca946d100b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:54 +0000
Subject: [PATCH 22/67] fix: the unit of the R2 bath radius was ignored

---
 vayesta/core/qemb/fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 773ec81..710e68f 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -932,7 +932,7 @@ class Fragment:
             elif btype == "r2":
                 rcut = self._get_bath_option("rcut", occtype)
                 unit = self._get_bath_option("unit", occtype)
-                c_bath, c_frozen = factory.get_bath(rcut=rcut)
+                c_bath, c_frozen = factory.get_bath(rcut=rcut, unit=unit)
             elif btype == "ewdmet":
                 order = self._get_bath_option("order", occtype)
                 c_bath, c_frozen = factory.get_bath(order)
-- 
2.43.0


From 803d014889bf3d024d4105de963f9f089640d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:25 +0000
Subject: [PATCH 23/67] fix: 2-DM of unrestricted MP2 wave functions used the
 CCSD amplitudes convention

The restricted code sets Lambda=0 and doubles T2 for MP2 fragments; the
unrestricted DM correlation energy with dm2='global-wf' was wrong.
---
 vayesta/ewf/amplitudes.py | 14 +++++++++++---
 vayesta/ewf/urdm.py       | 10 ++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/vayesta/ewf/amplitudes.py b/vayesta/ewf/amplitudes.py
index c501fe6..79b532d 100644
--- a/vayesta/ewf/amplitudes.py
+++ b/vayesta/ewf/amplitudes.py
@@ -92,7 +92,7 @@ def get_global_t2_rhf(emb, get_lambda=False, symmetrize=True, mpi_target=None, a
     return t2
 
 
-def get_global_t1_uhf(emb, get_lambda=False, mpi_target=None, ao_basis=False):
+def get_global_t1_uhf(emb, get_lambda=False, mpi_target=None, ao_basis=False, for_dm2=False):
     """Get global CCSD T1 from fragment calculations.
 
     Parameters
@@ -117,6 +117,8 @@ def get_global_t1_uhf(emb, get_lambda=False, mpi_target=None, ao_basis=False):
         roa, rob = x.get_overlap("mo[occ]|cluster[occ]")
         rva, rvb = x.get_overlap("mo[vir]|cluster[vir]")
         pwf = x.results.pwf.restore().as_ccsd()
+        if for_dm2 and x.solver == "MP2":
+            continue
         t1xa, t1xb = pwf.l1 if (get_lambda and not x.opts.t_as_lambda) else pwf.t1
         if t1xa is None:
             raise NotCalculatedError("Fragment %s" % x)
@@ -131,7 +133,7 @@ def get_global_t1_uhf(emb, get_lambda=False, mpi_target=None, ao_basis=False):
     return (t1a, t1b)
 
 
-def get_global_t2_uhf(emb, get_lambda=False, symmetrize=True, mpi_target=None, ao_basis=False):
+def get_global_t2_uhf(emb, get_lambda=False, symmetrize=True, mpi_target=None, ao_basis=False, for_dm2=False):
     """Get global CCSD T2 amplitudes from fragment calculations.
 
     Parameters
@@ -157,7 +159,13 @@ def get_global_t2_uhf(emb, get_lambda=False, symmetrize=True, mpi_target=None, a
         roa, rob = x.get_overlap("mo[occ]|cluster[occ]")
         rva, rvb = x.get_overlap("mo[vir]|cluster[vir]")
         pwf = x.results.pwf.restore().as_ccsd()
-        t2xaa, t2xab, t2xbb = pwf.l2 if (get_lambda and not x.opts.t_as_lambda) else pwf.t2
+        if for_dm2 and x.solver == "MP2":
+            # Lambda=0 for DM2(MP2)
+            if get_lambda:
+                continue
+            t2xaa, t2xab, t2xbb = (2 * t2x for t2x in pwf.t2)
+        else:
+            t2xaa, t2xab, t2xbb = pwf.l2 if (get_lambda and not x.opts.t_as_lambda) else pwf.t2
         if t2xaa is None:
             raise NotCalculatedError("Fragment %s" % x)
         t2aa += einsum("ijab,Ii,Jj,Aa,Bb->IJAB", t2xaa, roa, roa, rva, rva)
diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index 3577f8b..a3b3032 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -744,10 +744,12 @@ def make_rdm2_ccsd_global_wf(emb, ao_basis=False, symmetrize=False, t_as_lambda=
     """
 
     if slow:
-        t1 = emb.get_global_t1()
-        t2 = emb.get_global_t2()
-        l1 = emb.get_global_l1() if not t_as_lambda else t1
-        l2 = emb.get_global_l2() if not t_as_lambda else t2
+        if with_dm1 and np.any([(x.solver == "MP2") for x in emb.get_fragments(contributes=True)]):
+            raise NotImplementedError
+        t1 = emb.get_global_t1(for_dm2=True)
+        t2 = emb.get_global_t2(for_dm2=True)
+        l1 = emb.get_global_l1(for_dm2=True) if not t_as_lambda else t1
+        l2 = emb.get_global_l2(for_dm2=True) if not t_as_lambda else t2
         mockcc = _get_mockcc(emb.mo_coeff, emb.mf.max_memory)
         # dm2 = pyscf.cc.uccsd_rdm.make_rdm2(mockcc, t1=t1, t2=t2, l1=l1, l2=l2, with_frozen=False, with_dm1=with_dm1)
         dm2 = uccsd_rdm.make_rdm2(mockcc, t1=t1, t2=t2, l1=l1, l2=l2, with_frozen=False, with_dm1=with_dm1)
-- 
2.43.0


From e9d9f9c0cb21d163d6dd3fab70e17acebfeab586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:25 +0000
Subject: [PATCH 24/67] fix: alpha-beta block of the democratically partitioned
 2-DM was not symmetrized

---
 vayesta/core/qemb/rdm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/core/qemb/rdm.py b/vayesta/core/qemb/rdm.py
index 7071f06..23dab04 100644
--- a/vayesta/core/qemb/rdm.py
+++ b/vayesta/core/qemb/rdm.py
@@ -343,6 +343,7 @@ def make_rdm2_demo_uhf(
     if symmetrize:
         dm2aa = (dm2aa + dm2aa.transpose(1, 0, 3, 2)) / 2
         dm2bb = (dm2bb + dm2bb.transpose(1, 0, 3, 2)) / 2
+        dm2ab = (dm2ab + dm2ab.transpose(1, 0, 3, 2)) / 2
     if ao_basis:
         dm2aa = einsum("ijkl,pi,qj,rk,sl->pqrs", dm2aa, *(4 * [emb.mo_coeff[0]]))
         dm2bb = einsum("ijkl,pi,qj,rk,sl->pqrs", dm2bb, *(4 * [emb.mo_coeff[1]]))
-- 
2.43.0


From e49fe934189ac6e3cafabb2bdb1386035ade67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:52 +0000
Subject: [PATCH 25/67] fix: get_symmetry_child_fragments failed for nested
 fragment symmetries

---
 vayesta/core/qemb/qemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 3940c28..f76a4d2 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1085,7 +1085,7 @@ class Embedding:
         for f in self.fragments:
             if f.sym_parent is None:
                 continue
-            pid = f.sym_parent.id
+            pid = f.get_symmetry_parent().id
             assert pid in parent_ids
             idx = parent_ids.index(pid)
             children[idx].append(f)
-- 
2.43.0


From 8cb84ee71697b64218249e2549716bb20de44618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:52 +0000
Subject: [PATCH 26/67] fix: nested fragment symmetries of unrestricted
 embeddings failed, as derived fragments do not store their environment

---
 vayesta/core/qemb/ufragment.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vayesta/core/qemb/ufragment.py b/vayesta/core/qemb/ufragment.py
index dee4fbd..2ebb5c9 100644
--- a/vayesta/core/qemb/ufragment.py
+++ b/vayesta/core/qemb/ufragment.py
@@ -223,15 +223,11 @@ class UFragment(Fragment):
         dma, dmb = dm1
         ovlp = self.base.get_ovlp()
         # This fragment (x)
-        cxa, cxb = spinalg.hstack_matrices(self.c_frag, self.c_env)
+        cxa, cxb = spinalg.hstack_matrices(self.c_frag, self.get_coeff_env())
         dmxa = dot(cxa.T, ovlp, dma, ovlp, cxa)
         dmxb = dot(cxb.T, ovlp, dmb, ovlp, cxb)
         # Other fragment (y)
-        if frag.c_env is None:
-            cy_env = frag.sym_op(self.c_env)
-        else:
-            cy_env = frag.c_env
-        cya, cyb = spinalg.hstack_matrices(frag.c_frag, cy_env)
+        cya, cyb = spinalg.hstack_matrices(frag.c_frag, frag.get_coeff_env())
         dmya = dot(cya.T, ovlp, dma, ovlp, cya)
         dmyb = dot(cyb.T, ovlp, dmb, ovlp, cyb)
         charge_err = abs(dmxa + dmxb - dmya - dmyb).max()
-- 
2.43.0


From 209eb302220c48341e2b2938a2e4a64a714c7276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:52 +0000
Subject: [PATCH 27/67] fix: inverse of translations (called with a molecule
 instead of the symmetry group and without boundary phases)

---
 vayesta/core/symmetry/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index f963140..20a289c 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -288,7 +288,7 @@ class SymmetryTranslation(SymmetryOperation):
         return a * self.ao_reorder_phases[tuple([np.s_[:]] + (a.ndim - 1) * [None])]
 
     def inverse(self):
-        return type(self)(self.mol, -self.vector, boundary=self.boundary, atom_reorder=np.argsort(self.atom_reorder))
+        return type(self)(self.group, -self.vector, boundary=self.boundary)
 
     @property
     def lattice_vectors(self):
-- 
2.43.0


From d27d5044bc7736b245fb7d5aa4c30ebf622e7ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:52 +0000
Subject: [PATCH 28/67] fix: Cartesian vector of translations in cells with
 non-orthogonal lattice vectors

---
 vayesta/core/symmetry/operation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index 20a289c..71e5f11 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -305,8 +305,7 @@ class SymmetryTranslation(SymmetryOperation):
     @property
     def vector_xyz(self):
         """Translation vector in real-space coordinates (unit = Bohr)."""
-        latvecs = self.lattice_vectors
-        vector_xyz = np.dot(self.lattice_vectors, self.vector)
+        vector_xyz = np.dot(self.vector, self.lattice_vectors)
         return vector_xyz
 
     @property
-- 
2.43.0


From d4238c06cb9b9f4643981a4453251a18641f44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:52 +0000
Subject: [PATCH 29/67] fix: inversion symmetry with Cartesian basis functions

---
 vayesta/core/symmetry/operation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index 71e5f11..3550ce3 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -179,7 +179,11 @@ class SymmetryInversion(SymmetryOperation):
         return 2 * self.center - r0
 
     def call_kernel(self, a):
-        rotmats = [(-1) ** i * np.eye(n) for (i, n) in enumerate(range(1, 19, 2))]
+        if self.mol.cart:
+            sizes = [(l + 1) * (l + 2) // 2 for l in range(9)]
+        else:
+            sizes = [2 * l + 1 for l in range(9)]
+        rotmats = [(-1) ** l * np.eye(n) for (l, n) in enumerate(sizes)]
         a = self.rotate_angular_orbitals(a, rotmats)
         return a
 
-- 
2.43.0


From 158c31952b6780b0b2b1fad27ba6b8cf2478bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:35 +0000
Subject: [PATCH 30/67] fix: symmetry centers of supercells failed for lattice
 vectors with vanishing diagonal (e.g. fcc)

---
 vayesta/core/qemb/qemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index f76a4d2..93a79a4 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -846,7 +846,7 @@ class Embedding:
             ak = self.kcell.lattice_vectors()  # primtive cell lattice vectors
             bk = np.linalg.inv(ak)
             a = self.mol.lattice_vectors()  # supercell lattice vectors
-            shift = (np.diag(a) / np.diag(ak) - 1) / 2
+            shift = (np.linalg.norm(a, axis=1) / np.linalg.norm(ak, axis=1) - 1) / 2
             # Shift in internal coordinates, then transform back
             point = np.dot(np.dot(point, bk) + shift, ak)
             return point
-- 
2.43.0


From 6d0d0894301d787278c6f39631539c338eb4d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:48 +0000
Subject: [PATCH 31/67] fix: compress beta density-fitting factors from beta,
 not alpha, factors

---
 vayesta/solver/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 71b54c8..f6cc7a9 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -737,7 +737,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 self.log.debugv("CDERIs auxbas compressed from %d to %d in size", naux, sum(want))
                 return einsum("n,nq->nq", s[want], v[want]).reshape(-1, n1, n2)
 
-            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[0]))
+            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[1]))
             if cderi_neg[0] is not None:
                 cderi_neg = (compress_cderi(cderi_neg[0]), cderi_neg[1])
             if cderi_neg[1] is not None:
-- 
2.43.0


From da0acf1664f01d6d8c88c60be80ab0c48f870dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:48 +0000
Subject: [PATCH 32/67] fix: mean-field wrapper of clusters with a single
 orbital

---
 vayesta/solver/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index f6cc7a9..cde49e2 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -336,7 +336,7 @@ class RClusterHamiltonian:
         #   -our mean-field has DF.
         use_df = (
             allow_df
-            and np.ndim(clusmf.mo_coeff[1]) == 1
+            and np.ndim(clusmf.mo_coeff[0]) == 1
             and self.opts.screening is None
             and not (self._fragment.base.pbc_dimension in (1, 2))
             and hasattr(self.orig_mf, "with_df")
-- 
2.43.0


From 20431ae31b8e4a66825a15a62746f28714f29c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:48 +0000
Subject: [PATCH 33/67] fix: match_cluster_fock for unrestricted clusters with
 screened interactions

---
 vayesta/solver/hamiltonian.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index cde49e2..75d2c59 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -612,7 +612,11 @@ class UClusterHamiltonian(RClusterHamiltonian):
 
     # Integrals for the cluster calculations.
 
-    def get_fock(self, with_vext=True, use_seris=True, with_exxdiv=False):
+    def get_fock(self, with_vext=True, use_seris=None, with_exxdiv=False):
+        if use_seris is None:
+            # Actual default depends on self.opts.match_fock; to reproduce fock we will effectively modify heff
+            use_seris = not self.opts.match_fock
+
         ca, cb = self.cluster.c_active
         fa, fb = self._fragment.base.get_fock(with_exxdiv=with_exxdiv)
         fock = (dot(ca.T, fa, ca), dot(cb.T, fb, cb))
@@ -651,9 +655,9 @@ class UClusterHamiltonian(RClusterHamiltonian):
 
     def get_heff(self, eris=None, fock=None, with_vext=True, with_exxdiv=False):
         if eris is None:
-            eris = self.get_eris_bare()
+            eris = self.get_eris_screened()
         if fock is None:
-            fock = self.get_fock(with_vext=False, use_seris=False, with_exxdiv=with_exxdiv)
+            fock = self.get_fock(with_vext=False, with_exxdiv=with_exxdiv)
 
         oa = np.s_[: self.cluster.nocc_active[0]]
         ob = np.s_[: self.cluster.nocc_active[1]]
-- 
2.43.0


From ea3ad48ff7846a7cb14411c0a7e10be7649e3ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:23 +0000
Subject: [PATCH 34/67] fix: integral objects for unrestricted MP2, CISD, and
 CCSD

---
 vayesta/core/ao2mo/postscf_ao2mo.py | 2 +-
 vayesta/core/qemb/uqemb.py          | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/ao2mo/postscf_ao2mo.py b/vayesta/core/ao2mo/postscf_ao2mo.py
index bbafe99..221d02d 100644
--- a/vayesta/core/ao2mo/postscf_ao2mo.py
+++ b/vayesta/core/ao2mo/postscf_ao2mo.py
@@ -226,7 +226,7 @@ def postscf_kao2gmo_uhf(postscf, gdf, fock, mo_energy, e_hf=None, mo_coeff=None)
     cderi_neg = (cderia_neg, cderib_neg)
 
     # MP2
-    if isinstance(postscf, pyscf.mp.mp2.MP2):
+    if isinstance(postscf, pyscf.mp.ump2.UMP2):
         eris.ovov = _contract_cderi(cderia, cderia_neg)
         eris.OVOV = _contract_cderi(cderib, cderib_neg)
         eris.ovOV = _contract_cderi_mixed(cderi, cderi_neg)
diff --git a/vayesta/core/qemb/uqemb.py b/vayesta/core/qemb/uqemb.py
index 80b020a..6e0c704 100644
--- a/vayesta/core/qemb/uqemb.py
+++ b/vayesta/core/qemb/uqemb.py
@@ -172,9 +172,11 @@ class UEmbedding(Embedding):
             ERIs which can be used for the respective post-SCF method.
         """
         if fock is None:
-            if isinstance(postscf, pyscf.mp.mp2.MP2):
+            if isinstance(postscf, (pyscf.mp.mp2.MP2, pyscf.mp.ump2.UMP2)):
                 fock = self.get_fock()
-            elif isinstance(postscf, (pyscf.ci.cisd.CISD, pyscf.cc.ccsd.CCSD)):
+            elif isinstance(
+                postscf, (pyscf.ci.cisd.CISD, pyscf.cc.ccsd.CCSD, pyscf.ci.ucisd.UCISD, pyscf.cc.uccsd.UCCSD)
+            ):
                 fock = self.get_fock(with_exxdiv=False)
             else:
                 raise ValueError("Unknown post-HF method: %r", type(postscf))
-- 
2.43.0


From fa7e68ad3d0fee01c684d5861dfb863d2233629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:32 +0000
Subject: [PATCH 35/67] fix: respect match_cluster_fock in mean-field and
 integral wrappers of screened clusters

---
 vayesta/solver/hamiltonian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 75d2c59..a414073 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -366,7 +366,7 @@ class RClusterHamiltonian:
         clusmf.get_hcore = lambda *args, **kwargs: heff
         if overwrite_fock:
             clusmf.get_fock = lambda *args, **kwargs: np.asarray(pad_to_match(
-                self.get_fock(with_vext=True, use_seris=not force_bare_eris), dummy_energy
+                self.get_fock(with_vext=True, use_seris=False if force_bare_eris else None), dummy_energy
                 )
             )
             clusmf.get_veff = lambda *args, **kwargs: np.array(clusmf.get_fock(*args, **kwargs)) - np.array(
@@ -561,7 +561,7 @@ class RClusterHamiltonian:
                 return type(item) == str and len(item) == 4 and set(item).issubset(set("ov"))
 
         getter = self.get_eris_bare if force_bare else self.get_eris_screened
-        fock = self.get_fock(with_vext=with_vext, use_seris=not force_bare, with_exxdiv=with_exxdiv)
+        fock = self.get_fock(with_vext=with_vext, use_seris=False if force_bare else None, with_exxdiv=with_exxdiv)
         return DummyERIs(getter, valid_blocks=ValidRHFKeys(), fock=fock, nocc=self.cluster.nocc_active)
 
 
@@ -785,7 +785,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 return type(item) == str and len(item) == 4 and set(item).issubset(set("ovOV"))
 
         getter = self.get_eris_bare if force_bare else self.get_eris_screened
-        fock = self.get_fock(with_vext=with_vext, use_seris=not force_bare, with_exxdiv=with_exxdiv)
+        fock = self.get_fock(with_vext=with_vext, use_seris=False if force_bare else None, with_exxdiv=with_exxdiv)
         return DummyERIs(getter, valid_blocks=ValidUHFKeys(), fock=fock, nocc=self.cluster.nocc_active)
 
     def add_screening(self, seris_intermed=None):
-- 
2.43.0


From 3b8beaf03c26802f79fcfe7979fb3566be746be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:37 +0000
Subject: [PATCH 36/67] fix: screened Fock matrix of unrestricted clusters with
 different numbers of alpha and beta orbitals

---
 vayesta/solver/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index a414073..7ead233 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -649,7 +649,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 + einsum("iipq->pq", gab[oa, oa])  # Coulomb
                 - einsum("ipqi->pq", gbb[ob, :, :, ob])
             )  # Exchange
-            fock = np.asarray(((fock[0] + dfa), (fock[1] + dfb)))
+            fock = ((fock[0] + dfa), (fock[1] + dfb))
 
         return fock
 
-- 
2.43.0


From 764d8bc77ecad467d8ab32602714ebb5792095a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:31 +0000
Subject: [PATCH 37/67] fix: compress density-fitting factors of both spin
 channels with the same transformation

---
 vayesta/solver/hamiltonian.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 7ead233..d19dc67 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -734,18 +734,19 @@ class UClusterHamiltonian(RClusterHamiltonian):
         if compress:
             # SVD and compress the cderi tensor. This scales as O(N_{aux} N_{clus}^4), so this will be worthwhile
             # provided the following approach has a lower scaling than this.
-            def compress_cderi(cd):
-                naux, n1, n2 = cd.shape
-                u, s, v = np.linalg.svd(cd.reshape(naux, n1 * n2), full_matrices=False)
+            # Both spin channels have to be expressed in the same compressed auxiliary basis.
+            def compress_cderi(cds):
+                naux = cds[0].shape[0]
+                sizes = [np.prod(cd.shape[1:]) for cd in cds]
+                u, s, v = np.linalg.svd(np.hstack([cd.reshape(naux, -1) for cd in cds]), full_matrices=False)
                 want = s > svd_threshold
                 self.log.debugv("CDERIs auxbas compressed from %d to %d in size", naux, sum(want))
-                return einsum("n,nq->nq", s[want], v[want]).reshape(-1, n1, n2)
+                sv = np.split(einsum("n,nq->nq", s[want], v[want]), [sizes[0]], axis=1)
+                return tuple(x.reshape(-1, *cd.shape[1:]) for (x, cd) in zip(sv, cds))
 
-            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[1]))
+            cderi = compress_cderi(cderi)
             if cderi_neg[0] is not None:
-                cderi_neg = (compress_cderi(cderi_neg[0]), cderi_neg[1])
-            if cderi_neg[1] is not None:
-                cderi_neg = (cderi_neg[0], compress_cderi(cderi_neg[1]))
+                cderi_neg = compress_cderi(cderi_neg)
 
         return cderi, cderi_neg
 
-- 
2.43.0


From 13e54508b1494e5d3f8f2278ea4e2fc9901c0eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:54 +0000
Subject: [PATCH 38/67] fix: store EBCC results as CCSD wave function when the
 Lambda equations were not solved

---
 vayesta/solver/ebcc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/solver/ebcc.py b/vayesta/solver/ebcc.py
index f32430c..89f7059 100644
--- a/vayesta/solver/ebcc.py
+++ b/vayesta/solver/ebcc.py
@@ -197,7 +197,7 @@ class REBCC_Solver(ClusterSolver):
             # Can use existing functionality
             try:
                 self.wf = CCSD_WaveFunction(mo, mycc.t1, mycc.t2, l1=mycc.l1.T, l2=mycc.l2.transpose(2, 3, 0, 1))
-            except TypeError:
+            except (TypeError, KeyError):
                 self.wf = CCSD_WaveFunction(mo, mycc.t1, mycc.t2)
         else:
             self.wf = EBCC_WaveFunction(mo, mycc.ansatz, mycc.amplitudes, mycc.lambdas, mbos=mbos)
@@ -285,7 +285,7 @@ class UEBCC_Solver(UClusterSolver, REBCC_Solver):
                     l1=tuple([x.T for x in to_spin_tuple1(mycc.l1)]),
                     l2=tuple([x.transpose(2, 3, 0, 1) for x in to_spin_tuple2(mycc.l2)]),
                 )
-            except TypeError:
+            except (TypeError, KeyError):
                 self.wf = CCSD_WaveFunction(mo, to_spin_tuple1(mycc.t1), to_spin_tuple2(mycc.t2))
         else:
             self.wf = EBCC_WaveFunction(mo, mycc.ansatz, mycc.amplitudes, mycc.lambdas, mbos=mbos)
-- 
2.43.0


From aea3a8491fdf65e3b72b6253a9b0e31b1f873f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:54 +0000
Subject: [PATCH 39/67] fix: keep the CI matrix symmetric in the initial guess
 of the singlet FCI solver

---
 vayesta/solver/fci.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vayesta/solver/fci.py b/vayesta/solver/fci.py
index a79d1a2..863113e 100644
--- a/vayesta/solver/fci.py
+++ b/vayesta/solver/fci.py
@@ -70,7 +70,11 @@ class FCI_Solver(ClusterSolver):
             ci = None
 
         if self.opts.init_guess_noise and ci is not None:
-            ci += self.opts.init_guess_noise * np.random.random(ci.shape)
+            noise = np.random.random(ci.shape)
+            if not self.opts.solver_spin:
+                # direct_spin0 requires a symmetric CI matrix
+                noise = (noise + noise.T) / 2
+            ci += self.opts.init_guess_noise * noise
 
         heff, eris = self.hamil.get_integrals(with_vext=True)
 
-- 
2.43.0


From c0af907376463d9802a1c5ba44e5d22dce1f742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:11 +0000
Subject: [PATCH 40/67] fix: enforce the S^2 value of the FCI solver when it is
 set to zero

---
 vayesta/solver/fci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/fci.py b/vayesta/solver/fci.py
index 863113e..070685c 100644
--- a/vayesta/solver/fci.py
+++ b/vayesta/solver/fci.py
@@ -48,7 +48,7 @@ class FCI_Solver(ClusterSolver):
             solver.max_cycle = self.opts.max_cycle
         if self.opts.davidson_only is not None:
             solver.davidson_only = self.opts.davidson_only
-        if self.opts.fix_spin not in (None, False):
+        if self.opts.fix_spin is not None and self.opts.fix_spin is not False:
             spin = self.opts.fix_spin
             self.log.debugv("Fixing spin of FCI solver to S^2= %f", spin)
             solver = pyscf.fci.addons.fix_spin_(solver, shift=self.opts.fix_spin_penalty, ss=spin)
-- 
2.43.0


From a7ce3315d72532627307ca86b3144c0d78be82d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:18 +0000
Subject: [PATCH 41/67] fix: apply energy denominators only to the external
 corrections given as residuals

---
 vayesta/solver/coupling.py | 45 ++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/vayesta/solver/coupling.py b/vayesta/solver/coupling.py
index b93ba97..54aa9ec 100644
--- a/vayesta/solver/coupling.py
+++ b/vayesta/solver/coupling.py
@@ -601,6 +601,10 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             np.zeros((nocc[1], nocc[1], nvir[1], nvir[1])),
         )
 
+    # Residual corrections, which have to be divided by the energy denominators of fragment x
+    dr1 = spinalg.zeros_like(dt1)
+    dr2 = spinalg.zeros_like(dt2)
+
     frag_dir = {f.id: f for f in emb.fragments}
     for y, corrtype, projectors, low_level_coul in external_corrections:
         fy = frag_dir[y]  # Get fragment y object from its index
@@ -630,8 +634,13 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
         rxy_vir = spinalg.dot(cxs_vir, fy.cluster.c_active_vir)
         dt1y = transform_amplitude(dt1y, rxy_occ, rxy_vir, inverse=True)
         dt2y = transform_amplitude(dt2y, rxy_occ, rxy_vir, inverse=True)
-        dt1 = spinalg.add(dt1, dt1y)
-        dt2 = spinalg.add(dt2, dt2y)
+        # Residuals and amplitudes are accumulated separately
+        if corrtype == "external":
+            dr1 = spinalg.add(dr1, dt1y)
+            dr2 = spinalg.add(dr2, dt2y)
+        else:
+            dt1 = spinalg.add(dt1, dt1y)
+            dt2 = spinalg.add(dt2, dt2y)
 
         if low_level_coul and corrtype == "external":
             # Include the t3v term, contracting with the integrals from the x cluster
@@ -640,7 +649,7 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             dt2y_t3v = _get_delta_t2_from_t3v(
                 govvv_x, gvvov_x, gooov_x, govoo_x, fy, rxy_occ, rxy_vir, cxs_occ, projectors
             )
-            dt2 = spinalg.add(dt2, dt2y_t3v)
+            dr2 = spinalg.add(dr2, dt2y_t3v)
 
         solver.log.info(
             "External correction residuals from fragment %3d (%s via %s):  dT1= %.3e  dT2= %.3e",
@@ -651,13 +660,12 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
         )
 
     if emb.spinsym == "restricted":
-        if corrtype == "external":
-            # Contract with fragment x (CCSD) energy denominators
-            # Note that this will not work correctly if a level shift used
-            eia = mo_energy[:nocc, None] - mo_energy[None, nocc:]
-            eijab = pyscf.lib.direct_sum("ia,jb->ijab", eia, eia)
-            dt1 /= eia
-            dt2 /= eijab
+        # Contract with fragment x (CCSD) energy denominators
+        # Note that this will not work correctly if a level shift used
+        eia = mo_energy[:nocc, None] - mo_energy[None, nocc:]
+        eijab = pyscf.lib.direct_sum("ia,jb->ijab", eia, eia)
+        dt1 = dt1 + dr1 / eia
+        dt2 = dt2 + dr2 / eijab
 
         solver.log.info(
             "Total external correction amplitudes from all fragments:  dT1= %.3e  dT2= %.3e",
@@ -671,15 +679,14 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             t2[:] += dt2
 
     elif emb.spinsym == "unrestricted":
-        if corrtype == "external":
-            eia_a = mo_energy[0][: nocc[0], None] - mo_energy[0][None, nocc[0] :]
-            eia_b = mo_energy[1][: nocc[1], None] - mo_energy[1][None, nocc[1] :]
-            eijab_aa = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_a)
-            eijab_ab = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_b)
-            eijab_bb = pyscf.lib.direct_sum("ia,jb->ijab", eia_b, eia_b)
-
-            dt1 = (dt1[0] / eia_a, dt1[1] / eia_b)
-            dt2 = (dt2[0] / eijab_aa, dt2[1] / eijab_ab, dt2[2] / eijab_bb)
+        eia_a = mo_energy[0][: nocc[0], None] - mo_energy[0][None, nocc[0] :]
+        eia_b = mo_energy[1][: nocc[1], None] - mo_energy[1][None, nocc[1] :]
+        eijab_aa = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_a)
+        eijab_ab = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_b)
+        eijab_bb = pyscf.lib.direct_sum("ia,jb->ijab", eia_b, eia_b)
+
+        dt1 = spinalg.add(dt1, (dr1[0] / eia_a, dr1[1] / eia_b))
+        dt2 = spinalg.add(dt2, (dr2[0] / eijab_aa, dr2[1] / eijab_ab, dr2[2] / eijab_bb))
 
         solver.log.info(
             "Total external correction amplitudes from all fragments:  dT1= %.3e  dT2= %.3e",
-- 
2.43.0


From 58df7a4334afc16168baae975d1cf3d8b3fe2066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:07 +0000
Subject: [PATCH 42/67] fix: chemical potential search in the solver for
 non-zero initial guesses

---
 vayesta/solver/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vayesta/solver/solver.py b/vayesta/solver/solver.py
index f893487..a92e075 100644
--- a/vayesta/solver/solver.py
+++ b/vayesta/solver/solver.py
@@ -93,8 +93,8 @@ class ClusterSolver:
 
             def electron_err(cpt):
                 nonlocal result, err, err0, cpt_opt, iterations, init_guess
-                # Avoid recalculation of cpt=0.0 in SciPy:
-                if (cpt == 0) and (err0 is not None):
+                # Avoid recalculation of the initial guess in SciPy:
+                if (cpt == cpt_guess) and (err0 is not None):
                     self.log.debugv("Chemical potential %f already calculated - returning error= %.8f", cpt, err0)
                     return err0
 
@@ -170,14 +170,14 @@ class ClusterSolver:
                     break
                 # Could not find chemical potential in bracket:
                 except ValueError:
-                    bounds *= 2
+                    bounds = cpt_guess + 2 * (bounds - cpt_guess)
                     self.log.warning(
                         "Interval for chemical potential search too small. New search interval: [%f %f]", *bounds
                     )
                     continue
                 # Could not convergence in bracket:
                 except ConvergenceError:
-                    bounds /= 2
+                    bounds = cpt_guess + (bounds - cpt_guess) / 2
                     self.log.warning("Solver did not converge. New search interval: [%f %f]", *bounds)
                     continue
                 raise RuntimeError("Invalid state: electron error= %.3e" % err)
-- 
2.43.0


From 1a380b28f18d2b1d54e69d24d3748e84f808c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:04 +0000
Subject: [PATCH 43/67] fix: accept callback results without a wave function

---
 vayesta/ewf/fragment.py    | 12 ++++++++++++
 vayesta/solver/callback.py |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 0c2462a..21e2671 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -249,6 +249,18 @@ class Fragment(BaseFragment):
             return
 
         wf = cluster_solver.wf
+        if wf is None and solver.lower() == "callback":
+            # The callback did not return a wave function, only other results (for example moments)
+            self._results = results = self.Results(
+                fid=self.id,
+                n_active=cluster.norb_active,
+                converged=cluster_solver.converged,
+                moms=(cluster_solver.hole_moments, cluster_solver.particle_moments),
+                e_corr_rpa=e_corr_rpa,
+                callback_results=cluster_solver.callback_results,
+            )
+            self.hamil = cluster_solver.hamil
+            return results
         # Multiply WF by factor [optional]
         if self.opts.wf_factor is not None:
             wf.multiply(self.opts.wf_factor)
diff --git a/vayesta/solver/callback.py b/vayesta/solver/callback.py
index a8a29c5..055d98d 100644
--- a/vayesta/solver/callback.py
+++ b/vayesta/solver/callback.py
@@ -16,6 +16,7 @@ class CallbackSolver(ClusterSolver):
         results = self.opts.callback(mf_clus)
 
         # Build appropriate wavefunction object
+        wf = None
         if 'civec' in results:
             self.log.info("FCI WaveFunction found in callback results.")
             wf = FCI_WaveFunction(self.hamil.mo, results['civec'])
@@ -36,7 +37,7 @@ class CallbackSolver(ClusterSolver):
             dm1, dm2 = results['dm1'], results['dm2']
             wf = RDM_WaveFunction(self.hamil.mo, dm1, dm2)
         else:
-            self.log.warn("No wavefunction results returned by callback!")
+            self.log.warning("No wavefunction results returned by callback!")
 
         if 'hole_moments' in results:
             self.log.info("Hole moments found in callback results.")
-- 
2.43.0


From 77ff35349affdf85ce11355b52692299d5353823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:04 +0000
Subject: [PATCH 44/67] fix: pass FCI options of tailored CCSD to the FCI
 solver

---
 vayesta/ewf/fragment.py | 2 +-
 vayesta/solver/tccsd.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 21e2671..278f4cd 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -350,7 +350,7 @@ class Fragment(BaseFragment):
             solver_opts["c_cas_occ"] = self.opts.c_cas_occ
             solver_opts["c_cas_vir"] = self.opts.c_cas_vir
             if solver == "TCCSD":
-                solver_opts["tcc_fci_opts"] = self.opts.tcc_fci_opts
+                solver_opts["fci_opts"] = self.opts.tcc_fci_opts
         elif solver.upper() == "DUMP":
             solver_opts["filename"] = self.opts.solver_options["dumpfile"]
         if solver.upper() == 'CALLBACK':
diff --git a/vayesta/solver/tccsd.py b/vayesta/solver/tccsd.py
index 8694e2d..8d3b5e6 100644
--- a/vayesta/solver/tccsd.py
+++ b/vayesta/solver/tccsd.py
@@ -23,7 +23,7 @@ class TRCCSD_Solver(RCCSD_Solver):
         # Dummy cluster without any environmental orbitals.
         tclus = Cluster(orbs, None)
         tham = self.hamil.with_new_cluster(tclus)
-        fci = FCI_Solver(tham)
+        fci = FCI_Solver(tham, **self.opts.fci_opts)
         # Need to set v_ext for the FCI calculation. Just want rotation into our current basis.
         ro = dot(self.hamil.cluster.c_active_occ.T, self.hamil.orig_mf.get_ovlp(), tclus.c_active_occ)
         rv = dot(self.hamil.cluster.c_active_vir.T, self.hamil.orig_mf.get_ovlp(), tclus.c_active_vir)
-- 
2.43.0


From 45fae01425e32b76a0b6a9267201c95a5b8a8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 45/67] fix: total <Sz Sz> of unrestricted density matrices
 raised a NameError

---
 vayesta/misc/corrfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/corrfunc.py b/vayesta/misc/corrfunc.py
index 67c46dd..01ef961 100644
--- a/vayesta/misc/corrfunc.py
+++ b/vayesta/misc/corrfunc.py
@@ -76,7 +76,7 @@ def spinspin_z_unrestricted(dm1, dm2, proj1=None, proj2=None):
         proj2 = proj1
     if proj1 is None:
         ssz = einsum("iijj->", dm2aa) / 4 + einsum("iijj->", dm2bb) / 4 - einsum("iijj->", dm2ab) / 2
-        ssz += (np.trace(dma) + np.trace(dmb)) / 4
+        ssz += (np.trace(dm1a) + np.trace(dm1b)) / 4
         return ssz
     p1a, p1b = _get_proj_per_spin(proj1)
     p2a, p2b = _get_proj_per_spin(proj2)
-- 
2.43.0


From baea276192b541987848e58f88b8bac7237e622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 46/67] fix: population analysis of unrestricted fragments

---
 vayesta/core/qemb/fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 710e68f..43335f3 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -1141,7 +1141,7 @@ class Fragment:
             dm1 = self.results.dm1
         if dm1 is None:
             raise ValueError("DM1 not found for %s" % self)
-        dm1 = cluster.make_frozen_rdm1() + spinalg.dot(cluster.coeff, dm1, spinalg.T(cluster.coeff))
+        dm1 = spinalg.add(cluster.make_frozen_rdm1(), spinalg.dot(cluster.coeff, dm1, spinalg.T(cluster.coeff)))
         return self.base.pop_analysis(dm1, **kwargs)
 
     def plot3d(self, filename, gridsize=(100, 100, 100), **kwargs):
-- 
2.43.0


From 52cd52c10abecd8808fde4d4504e2e030103c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:10 +0000
Subject: [PATCH 47/67] fix: pass arguments of the kernel to all evaluations of
 the chemical potential search

---
 vayesta/misc/cptbisect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/cptbisect.py b/vayesta/misc/cptbisect.py
index 812bdcf..f0ae3b8 100644
--- a/vayesta/misc/cptbisect.py
+++ b/vayesta/misc/cptbisect.py
@@ -50,7 +50,7 @@ class ChempotBisection:
 
         it = 1
 
-        def iteration(cpt, *args, **kwargs):
+        def iteration(cpt):
             nonlocal it
             if cpt == cpt1:
                 err = err1
-- 
2.43.0


From 77c29f8b260e79ec0f6fca253d068a6d15a4f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:10 +0000
Subject: [PATCH 48/67] fix: chemical potential search reported convergence of
 a previous search

---
 vayesta/misc/cptbisect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/misc/cptbisect.py b/vayesta/misc/cptbisect.py
index f0ae3b8..3b7c7b4 100644
--- a/vayesta/misc/cptbisect.py
+++ b/vayesta/misc/cptbisect.py
@@ -16,6 +16,7 @@ class ChempotBisection:
         self.log = log or vayesta.log
 
     def kernel(self, *args, **kwargs):
+        self.converged = False
         cpt1 = self.cpt
         err1 = self.func(cpt1, *args, **kwargs)
         if abs(err1) <= self.tol:
-- 
2.43.0


From a0b2c23ff093cd3e885a0e169eea7ab4c8a7d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:07 +0000
Subject: [PATCH 49/67] fix: alpha-beta block of low-rank RPA kernels was built
 from the alpha factors only

---
 vayesta/rpa/rirpa/RIRPA.py | 2 +-
 vayesta/rpa/ssrpa.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index a257a61..0bde61b 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -699,7 +699,7 @@ class ssRIRRPA:
         if self.rixc is not None:
             xc_kernel = [
                 einsum("npq,nrs->pqrs", *self.rixc[0]),
-                einsum("npq,nrs->pqrs", self.rixc[0][0], self.rixc[0][1]),
+                einsum("npq,nrs->pqrs", self.rixc[0][0], self.rixc[1][1]),
                 einsum("npq,nrs->pqrs", *self.rixc[1]),
             ]
         fullrpa = ssRPA(self.mf)
diff --git a/vayesta/rpa/ssrpa.py b/vayesta/rpa/ssrpa.py
index cb6c886..845e470 100644
--- a/vayesta/rpa/ssrpa.py
+++ b/vayesta/rpa/ssrpa.py
@@ -248,7 +248,7 @@ class ssRPA:
         if not isinstance(xc_kernel[0], np.ndarray):
             xc_kernel = [
                 einsum("npq,nrs->pqrs", *xc_kernel[0]),
-                einsum("npq,nrs->pqrs", xc_kernel[0][0], xc_kernel[0][1]),
+                einsum("npq,nrs->pqrs", xc_kernel[0][0], xc_kernel[1][1]),
                 einsum("npq,nrs->pqrs", *xc_kernel[1]),
             ]
         c_o_a, c_o_b = c_o if isinstance(c_o, tuple) else (c_o, c_o)
-- 
2.43.0


From 434c0229584885b5eca598a393023ca1a7dbf040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:28 +0000
Subject: [PATCH 50/67] fix: RPA in a rotated excitation space (empty spin
 channel, moments with exchange-correlation kernel, energy of truncated
 spaces)

---
 vayesta/rpa/ssrpa.py  | 46 +++++++++++++++++++++++++------------------
 vayesta/rpa/ssurpa.py | 32 +++---------------------------
 2 files changed, 30 insertions(+), 48 deletions(-)

diff --git a/vayesta/rpa/ssrpa.py b/vayesta/rpa/ssrpa.py
index 845e470..8b61748 100644
--- a/vayesta/rpa/ssrpa.py
+++ b/vayesta/rpa/ssrpa.py
@@ -125,7 +125,7 @@ class ssRPA:
         full_mom0 = self.gen_moms(0, xc_kernel)[0]
 
         def get_eta_alpha(alpha):
-            newrpa = self.__class__(self.mf, self.log)
+            newrpa = self.__class__(self.mf, self.log, ov_rot=self.ov_rot)
             newrpa.kernel(xc_kernel=xc_kernel, alpha=alpha)
             mom0 = newrpa.gen_moms(0, xc_kernel=xc_kernel)[0]
             return mom0
@@ -153,7 +153,7 @@ class ssRPA:
             # Integration of adiabatic connection, but with approximation of the inverse eta0`
             def get_val_alpha(alpha):
                 eta0 = get_eta_alpha(alpha)
-                return (A_xc.trace() + einsum("pq,qp", B_xc, eta0 - np.eye(self.ov))) / 2
+                return (A_xc.trace() + einsum("pq,qp", B_xc, eta0 - np.eye(fullv.shape[0]))) / 2
 
             e = e_plasmon - run_ac_inter(get_val_alpha)
             e = (e, get_val_alpha)
@@ -161,8 +161,8 @@ class ssRPA:
             # Linear approximation of all quantities in adiabatic connection.
             e = 0.5 * (np.dot(full_mom0, ApB) - (0.5 * (ApB + AmB) - A_xc)).trace()
             e -= (
-                einsum("pq,qp->", A_xc + B_xc, full_mom0 + np.eye(self.ov))
-                + einsum("pq,qp->", A_xc - B_xc, np.linalg.inv(full_mom0) + np.eye(self.ov))
+                einsum("pq,qp->", A_xc + B_xc, full_mom0 + np.eye(fullv.shape[0]))
+                + einsum("pq,qp->", A_xc - B_xc, np.linalg.inv(full_mom0) + np.eye(fullv.shape[0]))
             ) / 8
         elif version == 3:
             # Linear approximation in AC and approx of inverse.
@@ -171,12 +171,12 @@ class ssRPA:
 
             def get_val_alpha(alpha):
                 eta0 = get_eta_alpha(alpha)
-                return einsum("pq,qp->", eta0 - np.eye(self.ov), fullv)
+                return einsum("pq,qp->", eta0 - np.eye(fullv.shape[0]), fullv)
 
             e = 0.5 * run_ac_inter(get_val_alpha)
             e = (e, get_val_alpha)
         elif version == 5:
-            e = einsum("pq,qp->", full_mom0 - np.eye(self.ov), fullv) / 4
+            e = einsum("pq,qp->", full_mom0 - np.eye(fullv.shape[0]), fullv) / 4
         else:
             raise ValueError("Unknown energy approach {:s} requested.".format(version))
 
@@ -191,17 +191,25 @@ class ssRPA:
         eps = (eps.T - self.mf.mo_energy[: self.nocc]).T
         eps = eps.reshape((self.ova,))
 
-        if self.ov_rot is not None:
-            if self.ov_rot[0].shape[0] > 0:
-                epsa = einsum("pn,n,qn->pq", self.ov_rot[0], eps, self.ov_rot[0])
-                epsa, ca = scipy.linalg.eigh(epsa)
-                self.ov_rot = (dot(ca.T, self.ov_rot[0]), self.ov_rot[1])
-            if self.ov_rot[1].shape[0] > 0:
-                epsb = einsum("pn,n,qn->pq", self.ov_rot[1], eps, self.ov_rot[1])
-                epsb, cb = scipy.linalg.eigh(epsb)
-                self.ov_rot = (self.ov_rot[0], dot(cb.T, self.ov_rot[1]))
-        else:
-            epsa = epsb = eps
+        return self._rotate_eps(eps, eps)
+
+    def _rotate_eps(self, epsa, epsb):
+        """Rotate excitation energies into the excitation space `ov_rot`, within which they are made diagonal."""
+        if self.ov_rot is None:
+            return epsa, epsb
+
+        def diagonalise(rot, eps):
+            if rot.shape[0] == 0:
+                return np.empty(0), rot
+            mat = einsum("pn,n,qn->pq", rot, eps, rot)
+            if abs(mat - np.diag(mat.diagonal())).max() < 1e-12:
+                # Already diagonal; solutions of a previous calculation have to remain valid.
+                return mat.diagonal(), rot
+            eps, c = scipy.linalg.eigh(mat)
+            return eps, dot(c.T, rot)
+
+        (epsa, rota), (epsb, rotb) = [diagonalise(r, e) for (r, e) in zip(self.ov_rot, (epsa, epsb))]
+        self.ov_rot = (rota, rotb)
         return epsa, epsb
 
     def _gen_arrays(self, xc_kernel=None, alpha=1.0):
@@ -212,10 +220,10 @@ class ssRPA:
         AmB = np.concatenate([epsa, epsb])
 
         fullv = self.get_k()
-        ApB = 2 * fullv * alpha
         if self.ov_rot is not None:
             fullrot = scipy.linalg.block_diag(self.ov_rot[0], self.ov_rot[1])
-            ApB = dot(fullrot, ApB, fullrot.T)
+            fullv = dot(fullrot, fullv, fullrot.T)
+        ApB = 2 * fullv * alpha
 
         # At this point AmB is just epsilon so add in.
         ApB[np.diag_indices_from(ApB)] += AmB
diff --git a/vayesta/rpa/ssurpa.py b/vayesta/rpa/ssurpa.py
index 3dd10c8..1f53ff1 100644
--- a/vayesta/rpa/ssurpa.py
+++ b/vayesta/rpa/ssurpa.py
@@ -56,44 +56,18 @@ class ssURPA(ssRPA):
         epsb = epsb + self.mf.mo_energy[1][nocc_b:]
         epsb = (epsb.T - self.mf.mo_energy[1][:nocc_b]).T
         epsb = epsb.reshape((self.ovb,))
-        return epsa, epsb
+        return self._rotate_eps(epsa, epsb)
 
     def _gen_arrays(self, xc_kernel=None, alpha=1.0):
         t0 = timer()
         epsa, epsb = self._gen_eps()
 
-        if self.ov_rot is not None:
-            if self.ov_rot[0].size > 0:
-                epsa = einsum("pn,n,qn->pq", self.ov_rot[0], epsa, self.ov_rot[0])
-                try:
-                    epsa, ca = scipy.linalg.eigh(epsa)
-                except Exception as e:
-                    print(epsa)
-                    raise e
-            else:
-                epsa = np.empty((0))
-                ca = np.empty((0,0))
-            if self.ov_rot[1].size > 0:
-                epsb = einsum("pn,n,qn->pq", self.ov_rot[1], epsb, self.ov_rot[1])
-                try:
-                    epsb, cb = scipy.linalg.eigh(epsb)
-                except Exception as e:
-                    print(epsb)
-                    raise e
-            else:
-                epsb = np.empty((0))
-                cb = np.empty((0,0))
-            self.ov_rot = (dot(ca.T, self.ov_rot[0]), dot(cb.T, self.ov_rot[1]))
-
         AmB = np.concatenate([epsa, epsb])
         fullv = self.get_k()
-        ApB = 2 * fullv * alpha
         if self.ov_rot is not None:
             fullrot = scipy.linalg.block_diag(self.ov_rot[0], self.ov_rot[1])
-            #print("Alpha rot: ", self.ov_rot[0].shape)
-            #print("Beta rot: ", self.ov_rot[1].shape)
-            #print("Size of full rot: ",fullrot.shape)
-            ApB = dot(fullrot, ApB, fullrot.T)
+            fullv = dot(fullrot, fullv, fullrot.T)
+        ApB = 2 * fullv * alpha
 
         # At this point AmB is just epsilon so add in.
         ApB[np.diag_indices_from(ApB)] += AmB
-- 
2.43.0


From a7a30d48faffb5481b789265a76569ef1df59990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 51/67] fix: interaction scaling alpha was ignored by the
 moments of RI-RPA

---
 vayesta/rpa/rirpa/RIRPA.py   | 2 +-
 vayesta/rpa/rirpa/RIdRRPA.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index 0bde61b..f15236c 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -205,7 +205,7 @@ class ssRIRRPA:
             self.log.warning("Warning; generating full moment rather than local component. Will scale as O(N^5).")
             target_rot = np.eye(self.ov_tot)
 
-        ri_decomps = self.get_compressed_MP()
+        ri_decomps = self.get_compressed_MP(alpha=kwargs.get("alpha", 1.0))
         ri_mp, ri_apb, ri_amb = ri_decomps
         # First need to calculate zeroth moment.
         moments = np.zeros((max_moment + 1,) + target_rot.shape)
diff --git a/vayesta/rpa/rirpa/RIdRRPA.py b/vayesta/rpa/rirpa/RIdRRPA.py
index 2478e77..0b125ce 100644
--- a/vayesta/rpa/rirpa/RIdRRPA.py
+++ b/vayesta/rpa/rirpa/RIdRRPA.py
@@ -23,7 +23,7 @@ class ssRIdRRPA(ssRIRRPA):
             else:
                 target_rot = np.eye(self.ov_tot)
 
-        ri_decomps = self.get_compressed_MP()
+        ri_decomps = self.get_compressed_MP(alpha=kwargs.get("alpha", 1.0))
         ri_mp, ri_apb, ri_amb = ri_decomps
         # First need to calculate zeroth moment. This only generates the spin-independent contribution in a single
         # spin channel; the spin-dependent contribution is just the identity rotated to our target rotation.
-- 
2.43.0


From 655d7bd729e114e35d3e448e2a5cbd425ca6cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 52/67] fix: direct_AC_integration divided a tuple (TypeError
 for every input)

---
 vayesta/rpa/rirpa/RIRPA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index f15236c..d6fa64c 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -424,7 +424,8 @@ class ssRIRRPA:
         local_rot describes the rotation of the ov-excitations to the space of local excitations within a cluster, while
         fragment_projectors gives the projector within this local excitation space to the actual fragment."""
         # Get the coulomb integrals.
-        ri_eri, ri_eri_neg = self.get_apb_eri_ri() / np.sqrt(2)
+        ri_eri, ri_eri_neg = self.get_apb_eri_ri()
+        ri_eri = ri_eri / np.sqrt(2)
 
         # TODO use ri_eri_neg here.
         def get_eta_alpha(alpha, target_rot):
-- 
2.43.0


From 8fde71e2eba5601647aee3607ae5749bb575bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 53/67] fix: get_gap of the restricted direct RI-RPA mixed
 spatial and spin-orbital quantities

---
 vayesta/rpa/rirpa/RIRPA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index d6fa64c..3bdf9a4 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -500,7 +500,8 @@ class ssRIRRPA:
         lowest eigenvalues. For a fixed number of eigenvalues in each case this scales as O(N^3), so shouldn't be
         prohibitively expensive.
         """
-        ri_mp, ri_apb, ri_amb = self.get_compressed_MP()
+        # The eigenproblem is always solved in the spin-orbital basis.
+        ri_mp, ri_apb, ri_amb = ssRIRRPA.get_compressed_MP(self)
 
         min_d = self.D.min()
 
-- 
2.43.0


From fe02439afb8e338766a845670d8bdf087e019cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 54/67] fix: RI-RPA kernels of systems without excitations in
 one spin channel

---
 vayesta/rpa/rirpa/RIRPA.py  | 12 ++++++++----
 vayesta/rpa/rirpa/RIURPA.py |  8 ++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index 3bdf9a4..318239c 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -660,21 +660,25 @@ class ssRIRRPA:
         # Have low-rank representation for interactions over and above coulomb interaction.
         # Note that this is usually asymmetric, as correction is non-PSD.
         ri_a_aa = [
-            einsum("npq,pi,qa->nia", x, self.mo_coeff_occ, self.mo_coeff_vir).reshape((-1, self.ov))
+            einsum("npq,pi,qa->nia", x, self.mo_coeff_occ, self.mo_coeff_vir).reshape((x.shape[0], self.ov))
             for x in self.rixc[0]
         ]
         ri_a_bb = [
-            einsum("npq,pi,qa->nia", x, self.mo_coeff_occ, self.mo_coeff_vir).reshape((-1, self.ov))
+            einsum("npq,pi,qa->nia", x, self.mo_coeff_occ, self.mo_coeff_vir).reshape((x.shape[0], self.ov))
             for x in self.rixc[1]
         ]
 
         ri_b_aa = [
             ri_a_aa[0],
-            einsum("npq,qi,pa->nia", self.rixc[0][1], self.mo_coeff_occ, self.mo_coeff_vir).reshape((-1, self.ov)),
+            einsum("npq,qi,pa->nia", self.rixc[0][1], self.mo_coeff_occ, self.mo_coeff_vir).reshape(
+                (self.rixc[0][1].shape[0], self.ov)
+            ),
         ]
         ri_b_bb = [
             ri_a_bb[0],
-            einsum("npq,qi,pa->nia", self.rixc[1][1], self.mo_coeff_occ, self.mo_coeff_vir).reshape((-1, self.ov)),
+            einsum("npq,qi,pa->nia", self.rixc[1][1], self.mo_coeff_occ, self.mo_coeff_vir).reshape(
+                (self.rixc[1][1].shape[0], self.ov)
+            ),
         ]
 
         ri_a_xc = [np.concatenate([x, y], axis=1) for x, y in zip(ri_a_aa, ri_a_bb)]
diff --git a/vayesta/rpa/rirpa/RIURPA.py b/vayesta/rpa/rirpa/RIURPA.py
index 0347366..22700da 100644
--- a/vayesta/rpa/rirpa/RIURPA.py
+++ b/vayesta/rpa/rirpa/RIURPA.py
@@ -123,11 +123,11 @@ class ssRIURPA(ssRIRRPA):
         # Have low-rank representation for interactions over and above coulomb interaction.
         # Note that this is usually asymmetric, as correction is non-PSD.
         ri_a_aa = [
-            einsum("npq,pi,qa->nia", x, self.mo_coeff_occ[0], self.mo_coeff_vir[0]).reshape((-1, self.ov[0]))
+            einsum("npq,pi,qa->nia", x, self.mo_coeff_occ[0], self.mo_coeff_vir[0]).reshape((x.shape[0], self.ov[0]))
             for x in self.rixc[0]
         ]
         ri_a_bb = [
-            einsum("npq,pi,qa->nia", x, self.mo_coeff_occ[1], self.mo_coeff_vir[1]).reshape((-1, self.ov[1]))
+            einsum("npq,pi,qa->nia", x, self.mo_coeff_occ[1], self.mo_coeff_vir[1]).reshape((x.shape[0], self.ov[1]))
             for x in self.rixc[1]
         ]
 
@@ -138,7 +138,7 @@ class ssRIURPA(ssRIRRPA):
                 self.rixc[0][1],
                 self.mo_coeff_occ[0],
                 self.mo_coeff_vir[0],
-            ).reshape((-1, self.ov[0])),
+            ).reshape((self.rixc[0][1].shape[0], self.ov[0])),
         ]
         ri_b_bb = [
             ri_a_bb[0],
@@ -147,7 +147,7 @@ class ssRIURPA(ssRIRRPA):
                 self.rixc[1][1],
                 self.mo_coeff_occ[1],
                 self.mo_coeff_vir[1],
-            ).reshape((-1, self.ov[1])),
+            ).reshape((self.rixc[1][1].shape[0], self.ov[1])),
         ]
 
         ri_a_xc = [np.concatenate([x, y], axis=1) for x, y in zip(ri_a_aa, ri_a_bb)]
-- 
2.43.0


From 60a156afc5d3c9c5813a958fbfaca5ae803926bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:55 +0000
Subject: [PATCH 55/67] fix: compression of RI-RPA decompositions (complex or
 wrong for non-symmetric products)

---
 vayesta/rpa/rirpa/RIRPA.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index 318239c..a552747 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -783,16 +783,17 @@ def construct_inverse_RI(D, ri):
 def compress_low_rank(ri_l, ri_r, tol=1e-12, log=None, name=None):
     naux_init = ri_l.shape[0]
 
-    inner_prod = dot(ri_l, ri_r.T)
+    # Singular value decomposition of the product ri_l^T ri_r, at cost O(naux^2 ov).
+    ql, rl = np.linalg.qr(ri_l.T)
+    qr, rr = np.linalg.qr(ri_r.T)
+    u, s, v = np.linalg.svd(dot(rl, rr.T))
 
-    e, c = np.linalg.eig(inner_prod)
-
-    want = e > tol
+    want = s > tol
     nwant = sum(want)
-    rot = c[:, want]
+    srt = s[want] ** (0.5)
 
-    ri_l = dot(rot.T, ri_l)
-    ri_r = dot(rot.T, ri_r)
+    ri_l = dot(ql, u[:, : len(s)][:, want] * srt[None]).T
+    ri_r = dot(qr, v[: len(s)][want].T * srt[None]).T
     if nwant < naux_init and log is not None:
         if name is None:
             log.info(
-- 
2.43.0


From d85da2758720520a62b43152340de5bdb297bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:04 +0000
Subject: [PATCH 56/67] fix: adaptive quadrature of the RI-RPA moments
 multiplied a tuple by two (ValueError)

---
 vayesta/rpa/rirpa/RIRPA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index a552747..9c36049 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -304,7 +304,9 @@ class ssRIRRPA:
 
         if adaptive_quad:
             # Can also make use of scipy adaptive quadrature routines; this is more expensive but a good sense-check.
-            integral, upper_bound = 2 * niworker.kernel_adaptive()
+            # The integrand is even, and only integrated over positive frequencies.
+            integral, upper_bound = niworker.kernel_adaptive()
+            integral, upper_bound = 2 * integral, 2 * upper_bound
         else:
             integral, upper_bound = niworker.kernel(a=ainit, opt_quad=opt_quad)
 
-- 
2.43.0


From e2f8bb0f35491eaf5bb72ac1fdcd8a3c67e80d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:05 +0000
Subject: [PATCH 57/67] fix: quadrature optimisation failed if the diagonal
 approximation is integrated exactly (IndexError)

---
 vayesta/rpa/rirpa/NI_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/rpa/rirpa/NI_eval.py b/vayesta/rpa/rirpa/NI_eval.py
index 1a0c101..ed46c2c 100644
--- a/vayesta/rpa/rirpa/NI_eval.py
+++ b/vayesta/rpa/rirpa/NI_eval.py
@@ -167,7 +167,7 @@ class NumericalIntegratorBase:
             optarg = fvals.argmin()
             optval = fvals[optarg]
             # Now find the values which are within reach of lowest value
-            relevant = np.where(fvals < relevance_factor * optval)[0]
+            relevant = np.where(fvals <= relevance_factor * optval)[0]
             minarg = min(relevant[0], optarg - 1)
             maxarg = max(relevant[-1], optarg + 1)
             return [ainit * scale_fac**x for x in (optarg, minarg, maxarg)]
-- 
2.43.0


From 5e5d76965f7a236d072d2359a26bff248c5f58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:05 +0000
Subject: [PATCH 58/67] fix: RI-RPA integration error reported as zero if the
 nested quadratures do not converge

---
 vayesta/rpa/rirpa/NI_eval.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/NI_eval.py b/vayesta/rpa/rirpa/NI_eval.py
index ed46c2c..c683a1a 100644
--- a/vayesta/rpa/rirpa/NI_eval.py
+++ b/vayesta/rpa/rirpa/NI_eval.py
@@ -320,8 +320,12 @@ class NumericalIntegratorClenCur(NumericalIntegratorBase):
            error_error = b ** 2 / a ** 2.
         """
         if a - b < 1e-10:
-            self.log.info("RIRPA error numerically zero.")
-            return 0.0
+            if b < 1e-10:
+                self.log.info("RIRPA error numerically zero.")
+                return 0.0
+            # The finest grid did not improve upon the coarser ones, so their convergence cannot be extrapolated.
+            self.log.warning("Nested quadratures not converging; error estimated from difference of finest grids.")
+            return b
         # This is Eq. 103 from https://arxiv.org/abs/2301.09107
         roots = np.roots([1, 0, a / (a - b), -b / (a - b)])
         # From physical considerations require real root between zero and one, since this is value of e^{-\beta n_p}.
-- 
2.43.0


From ac6ba91fd8e046daf0cdaa01d0941385c4c0487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:05 +0000
Subject: [PATCH 59/67] fix: ssRIRPA ignored an exchange-correlation kernel
 passed by position

---
 vayesta/rpa/rirpa/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/rpa/rirpa/__init__.py b/vayesta/rpa/rirpa/__init__.py
index 73a2c76..1dbfbc4 100644
--- a/vayesta/rpa/rirpa/__init__.py
+++ b/vayesta/rpa/rirpa/__init__.py
@@ -7,7 +7,7 @@ import pyscf.scf
 def ssRIRPA(mf, *args, **kwargs):
     if isinstance(mf, pyscf.scf.uhf.UHF):
         return ssRIURPA(mf, *args, **kwargs)
-    if "rixc" in kwargs:
-        if kwargs["rixc"] is not None:
-            return ssRIRRPA(mf, *args, **kwargs)
+    rixc = args[0] if args else kwargs.get("rixc", None)
+    if rixc is not None:
+        return ssRIRRPA(mf, *args, **kwargs)
     return ssRIdRRPA(mf, *args, **kwargs)
-- 
2.43.0


From 349c1608a564f382aeaaa91587bfefdc52a12f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:05 +0000
Subject: [PATCH 60/67] fix: missing import in ssURPA.ao2mo (spin-dependent
 integrals)

---
 vayesta/rpa/ssurpa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/rpa/ssurpa.py b/vayesta/rpa/ssurpa.py
index 1f53ff1..67adea9 100644
--- a/vayesta/rpa/ssurpa.py
+++ b/vayesta/rpa/ssurpa.py
@@ -1,5 +1,6 @@
 from vayesta.rpa.ssrpa import ssRPA
 import numpy as np
+import pyscf.ao2mo
 import scipy.linalg
 
 from timeit import default_timer as timer
-- 
2.43.0


From 19674aadafbe710d47e3c411a69b2c49d2cfc62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:05 +0000
Subject: [PATCH 61/67] fix: shape check of given integrals in ssRIURPA indexed
 the auxiliary dimension

---
 vayesta/rpa/rirpa/RIURPA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIURPA.py b/vayesta/rpa/rirpa/RIURPA.py
index 22700da..34d04fe 100644
--- a/vayesta/rpa/rirpa/RIURPA.py
+++ b/vayesta/rpa/rirpa/RIURPA.py
@@ -162,8 +162,8 @@ class ssRIURPA(ssRIRRPA):
             if isinstance(self.lov, tuple):
                 (la, lb), (la_neg, lb_neg) = self.lov
             else:
-                assert self.lov[0][0].shape == (self.naux_eri, self.nocc[0], self.nvir[0])
-                assert self.lov[0][1].shape == (self.naux_eri, self.nocc[1], self.nvir[1])
+                assert self.lov[0].shape == (self.naux_eri, self.nocc[0], self.nvir[0])
+                assert self.lov[1].shape == (self.naux_eri, self.nocc[1], self.nvir[1])
                 la, lb = self.lov
                 la_neg = lb_neg = None
         return (la, lb), (la_neg, lb_neg)
-- 
2.43.0


From 6dbbfd56099a0d34aa31230bf1afc4e9fa27d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 62/67] fix: get_gap returned nan vectors for degenerate gaps,
 and inconsistently scaled X+Y and X-Y

---
 vayesta/rpa/rirpa/RIRPA.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index 9c36049..c398e32 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -580,8 +580,14 @@ class ssRIRRPA:
             xmy = xmy[sorted_args]
             e = e[sorted_args]
         else:
-            xpy = c_r / (ovlp ** (0.5))
-            xmy = c_l / (ovlp ** (0.5))
+            # For degenerate eigenvalues the left and right eigenvectors found above need not correspond to each other,
+            # and their relative scale is arbitrary in general; use (A+B)(X+Y) = w (X-Y) instead.
+            xpy = c_r.real
+            xmy = self.D * xpy + dot(ri_apb[0].T, dot(ri_apb[1], xpy))
+            norm = np.dot(xpy, xmy)
+            w = e_mp_r.real ** (0.5)
+            xpy = xpy * (w / norm) ** (0.5)
+            xmy = xmy / (w * norm) ** (0.5)
             e = einsum("p,p,p->", xmy, self.D**2, xpy) + einsum("p,yp,yq,q->", xmy, *ri_mp, xpy)
 
         return e ** (0.5), xpy, xmy
-- 
2.43.0


From 5f724a23a09f7b44fbbb8eeaeb28209da277a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:18 +0000
Subject: [PATCH 63/67] fix: user's callback objects were deep-copied for every
 fragment

---
 vayesta/core/util.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/util.py b/vayesta/core/util.py
index 14aa43f..5f62a8d 100644
--- a/vayesta/core/util.py
+++ b/vayesta/core/util.py
@@ -647,9 +647,20 @@ class OptionsBase:
 
     def asdict(self, deepcopy=False):
         if deepcopy:
-            return dataclasses.asdict(self)
+            # Copy containers and arrays, but not any other objects of the user (such as callbacks).
+            return {key: self._copy_value(val) for (key, val) in self.__dict__.items()}
         return self.__dict__
 
+    @classmethod
+    def _copy_value(cls, val):
+        if isinstance(val, dict):
+            return {k: cls._copy_value(v) for (k, v) in val.items()}
+        if type(val) in (list, tuple, set):
+            return type(val)(cls._copy_value(v) for v in val)
+        if isinstance(val, np.ndarray):
+            return val.copy()
+        return val
+
     def keys(self):
         return self.asdict().keys()
 
-- 
2.43.0


From b0a97831c44cc630ef82f101da95503fa96fe5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:18 +0000
Subject: [PATCH 64/67] fix: dump solver closed an open file passed by the user
 after the first fragment

---
 vayesta/solver/dump.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vayesta/solver/dump.py b/vayesta/solver/dump.py
index 97424ee..599fac7 100644
--- a/vayesta/solver/dump.py
+++ b/vayesta/solver/dump.py
@@ -1,3 +1,4 @@
+import contextlib
 import dataclasses
 
 import h5py
@@ -16,10 +17,11 @@ class DumpSolver(ClusterSolver):
         cluster = self.hamil.cluster
 
         if isinstance(self.opts.dumpfile, str):
-            h5file = h5py.File(self.opts.dumpfile, "a")
+            context = h5py.File(self.opts.dumpfile, "a")
         else:
-            h5file = self.opts.dumpfile
-        with h5file as f:
+            # Do not close the file of the user, it is needed for the next fragment.
+            context = contextlib.nullcontext(self.opts.dumpfile)
+        with context as h5file:
             grp = h5file.create_group("fragment_%d" % fragment.id)
             # Attributes
             grp.attrs["id"] = fragment.id
-- 
2.43.0


From eb2b2c10081a63b09b9d9fad0a9954d9f889de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:51 +0000
Subject: [PATCH 65/67] fix: RMA_Dict scrambled Fortran-ordered arrays and
 failed for non-contiguous ones

---
 vayesta/mpi/rma.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/mpi/rma.py b/vayesta/mpi/rma.py
index 6312184..a10acad 100644
--- a/vayesta/mpi/rma.py
+++ b/vayesta/mpi/rma.py
@@ -50,6 +50,8 @@ class RMA_Dict:
             self.win = self.mpi.MPI.Win.Allocate(winsize, comm=self.mpi.world)
             assert self.shape == data.shape
             assert self.dtype == data.dtype
+            # The buffer is transferred in memory order, but always read back in C order
+            data = np.ascontiguousarray(data)
             self.rma_lock()
             self.rma_put(data)
             self.rma_unlock()
-- 
2.43.0


From db559a2bff6249b9c91df211e1ad7779d09f9dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:51 +0000
Subject: [PATCH 66/67] fix: RMA_Dict.clear failed if an element is None

---
 vayesta/mpi/rma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vayesta/mpi/rma.py b/vayesta/mpi/rma.py
index a10acad..7c623e8 100644
--- a/vayesta/mpi/rma.py
+++ b/vayesta/mpi/rma.py
@@ -108,6 +108,9 @@ class RMA_Dict:
             return self.win.Get(buf, target_rank=self.location, **kwargs)
 
         def free(self):
+            # No window is allocated for None
+            if self.win is None:
+                return
             return self.win.Free()
 
     @property
-- 
2.43.0


From 1d114d1699589becde8aac0c9a747eb2922fc7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:51 +0000
Subject: [PATCH 67/67] fix: RMA_Dict: delete keys on all MPI ranks, release
 windows of deleted and overwritten elements

---
 vayesta/mpi/rma.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/vayesta/mpi/rma.py b/vayesta/mpi/rma.py
index 7c623e8..cc3c44a 100644
--- a/vayesta/mpi/rma.py
+++ b/vayesta/mpi/rma.py
@@ -11,6 +11,7 @@ class RMA_Dict:
         self.mpi = mpi
         self._writable = False
         self.local_data = {}
+        self._deleted = set()
         self._elements = {}
 
     @classmethod
@@ -150,7 +151,17 @@ class RMA_Dict:
     def __delitem__(self, key):
         if not self._writable:
             raise AttributeError("Cannot write to ArrayCollection outside of with-statement.")
-        del self._elements[key]
+        # Not yet synchronized
+        if key in self.local_data:
+            del self.local_data[key]
+            return
+        if self.mpi.disabled:
+            del self._elements[key]
+            return
+        if key not in self._elements or key in self._deleted:
+            raise KeyError(key)
+        # Removed from all MPI ranks in the next synchronization
+        self._deleted.add(key)
 
     def __enter__(self):
         self._writable = True
@@ -214,7 +225,7 @@ class RMA_Dict:
             return
         self.mpi.world.Barrier()
         mdata = self._get_metadata()
-        allmdata = self.mpi.world.allgather(mdata)
+        allmdata, alldeleted = zip(*self.mpi.world.allgather((mdata, self._deleted)))
         assert len(allmdata) == len(self.mpi)
         elements = {}
         for rank, d in enumerate(allmdata):
@@ -228,6 +239,11 @@ class RMA_Dict:
                     elements[key] = self.RMA_DictElement(self, location=rank, data=data, shape=shape, dtype=dtype)
                 else:
                     elements[key] = self.RMA_DictElement(self, location=rank, shape=shape, dtype=dtype)
+        # Release deleted and overwritten elements (same order on all MPI ranks)
+        for key in list(self._elements):
+            if key in elements or any(key in deleted for deleted in alldeleted):
+                self._elements.pop(key).free()
         self._elements.update(elements)
         self.mpi.world.Barrier()
         self.local_data = {}
+        self._deleted = set()
-- 
2.43.0

