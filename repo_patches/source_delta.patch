From a0506c9402c47e0a7cf778807b208ad671efa326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:48 +0000
Subject: [PATCH 01/29] fix: DataSE.load reads the file once, from paths and
 handles alike

Loading from an open handle (which DataSE.refresh does) lost the rows
consumed while looking for the header, a file replaced between the two
opens was parsed with the wrong header length, and single row files gave
0-d data.
---
 refellips/dataSE.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 50f3ba8..8aedee2 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -232,17 +232,21 @@ class DataSE(object):
 
         """
 
-        skip_lines = 0
+        # read the file once: parsing must not depend on whether a path or a
+        # (possibly non-seekable) handle was supplied.
         with possibly_open_file(f, "r") as text:
-            for i in range(100):  # check the first 100 lines
-                try:
-                    float(text.readline().split(self.delimiter)[0])
-                    break
-                except ValueError:
-                    skip_lines += 1
+            lines = text.readlines()
+
+        skip_lines = 0
+        for line in lines[:100]:  # check the first 100 lines
+            try:
+                float(line.split(self.delimiter)[0])
+                break
+            except ValueError:
+                skip_lines += 1
 
         self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
-            f, skiprows=skip_lines, delimiter=self.delimiter, encoding="utf8"
+            lines, skiprows=skip_lines, delimiter=self.delimiter, ndmin=2
         ).T
 
     def refresh(self):
-- 
2.43.0


From 9ebdf1849f46c13cd80dde6507085c41a522892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:27 +0000
Subject: [PATCH 02/29] fix: DataSE.load/refresh clear the mask and keep the
 delta convention

After a refresh the old mask no longer fitted the new data, and delta
values of a dataset created with reflect_delta were not reflected.
---
 refellips/dataSE.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 8aedee2..f110478 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -71,6 +71,7 @@ class DataSE(object):
         # TODO when we come up with measurement uncertainties change this.
         self.weighted = False
         self.name = name
+        self._delta_flipped = False
 
         # If a file, then open and load the file.
         if (
@@ -98,7 +99,6 @@ class DataSE(object):
             self._psi = data[2]
             self._delta = data[3]
 
-        self._delta_flipped = False
         if reflect_delta:
             dmask = self._delta > 180
             self._delta[dmask] = 360 - self._delta[dmask]
@@ -190,14 +190,22 @@ class DataSE(object):
 
         Notes
         -----
-        Clears the mask for the dataset, it will need to be reapplied.
+        Clears the mask for the dataset, it will need to be reapplied. If
+        the dataset was created with ``reflect_delta`` then the new delta
+        values are reflected as well.
 
         """
-        self._wavelength = np.array(data_tuple[0], dtype=float)
-        self._aoi = np.array(data_tuple[1], dtype=float)
-        self._psi = np.array(data_tuple[2], dtype=float)
-        self._delta = np.array(data_tuple[3], dtype=float)
-
+        wavelength = np.array(data_tuple[0], dtype=float)
+        aoi = np.array(data_tuple[1], dtype=float)
+        psi = np.array(data_tuple[2], dtype=float)
+        delta = np.array(data_tuple[3], dtype=float)
+        if self._delta_flipped:
+            delta = np.where(delta > 180, 360 - delta, delta)
+
+        self._wavelength = wavelength
+        self._aoi = aoi
+        self._psi = psi
+        self._delta = delta
         self.mask = np.ones_like(self._wavelength, dtype=bool)
 
     def save(self, f):
@@ -245,9 +253,10 @@ class DataSE(object):
             except ValueError:
                 skip_lines += 1
 
-        self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
+        wavelength, aoi, psi, delta = np.loadtxt(
             lines, skiprows=skip_lines, delimiter=self.delimiter, ndmin=2
         ).T
+        self.data = (wavelength, aoi, psi, delta)
 
     def refresh(self):
         """
-- 
2.43.0


From 92e4d766f8e2335d3a0329f1217186906d2c0625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:27 +0000
Subject: [PATCH 03/29] fix: DataSE does not alter or alias the arrays it is
 made from

reflect_delta modified the caller's delta array in place, and a DataSE made
from a DataSE forgot that its deltas are reflected.
---
 refellips/dataSE.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index f110478..b9d9079 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -87,17 +87,19 @@ class DataSE(object):
             self.name = data.name
             self.filename = data.filename
             self.metadata = data.metadata
-            self._wavelength = data._wavelength
-            self._aoi = data._aoi
-            self._psi = data._psi
-            self._delta = data._delta
+            self._wavelength = np.array(data._wavelength)
+            self._aoi = np.array(data._aoi)
+            self._psi = np.array(data._psi)
+            self._delta = np.array(data._delta)
+            self._delta_flipped = data._delta_flipped
 
         # If a list or tuple, then assume its in format wavelength, AOI, psi, delta.
         elif isinstance(data, (list, tuple, np.ndarray)):
-            self._wavelength = data[0]
-            self._aoi = data[1]
-            self._psi = data[2]
-            self._delta = data[3]
+            # these are copies, the arrays of the caller are left alone.
+            self._wavelength = np.array(data[0], dtype=float)
+            self._aoi = np.array(data[1], dtype=float)
+            self._psi = np.array(data[2], dtype=float)
+            self._delta = np.array(data[3], dtype=float)
 
         if reflect_delta:
             dmask = self._delta > 180
-- 
2.43.0


From 80288c21f58ca1fc3751f412739194f4049ecbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:27 +0000
Subject: [PATCH 04/29] fix: DataSE.mask behaves as documented

The mask keyword ended up in the metadata, mask = None broke the dataset, and
non-boolean or broadcastable masks were not understood.
---
 refellips/dataSE.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index b9d9079..6d94908 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -58,7 +58,13 @@ class DataSE(object):
     """
 
     def __init__(
-        self, data=None, name=None, delimiter="\t", reflect_delta=False, **kwds
+        self,
+        data=None,
+        name=None,
+        delimiter="\t",
+        reflect_delta=False,
+        mask=None,
+        **kwds,
     ):
         self.filename = None
 
@@ -106,7 +112,9 @@ class DataSE(object):
             self._delta[dmask] = 360 - self._delta[dmask]
             self._delta_flipped = True
 
-        self.mask = np.ones_like(self._wavelength, dtype=bool)
+        if mask is None and isinstance(data, DataSE):
+            mask = data.mask
+        self.mask = mask
 
     def __len__(self):
         """Number of unmasked points in the dataset."""
@@ -126,6 +134,21 @@ class DataSE(object):
         else:
             return "Data1D(data={data!r}," " mask={msk!r})".format(**d)
 
+    @property
+    def mask(self):
+        """Which points are included (True) or excluded (False)."""
+        return self._mask
+
+    @mask.setter
+    def mask(self, mask):
+        if mask is None:
+            mask = True
+        self._mask = np.array(
+            np.broadcast_to(
+                np.asarray(mask, dtype=bool), np.shape(self._wavelength)
+            )
+        )
+
     def unique_wavelength_data(self):
         """
         Generator yielding wavelength, AOI, psi, delta tuples for the unique
-- 
2.43.0


From b0df69099ca5ce4dfe91d3cc496b2e35649414d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 05/29] fix: a DataSE made from a DataSE keeps its delimiter

It could not be refreshed otherwise.
---
 refellips/dataSE.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 6d94908..2e841dc 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -92,6 +92,7 @@ class DataSE(object):
         elif isinstance(data, DataSE):
             self.name = data.name
             self.filename = data.filename
+            self.delimiter = data.delimiter
             self.metadata = data.metadata
             self._wavelength = np.array(data._wavelength)
             self._aoi = np.array(data._aoi)
-- 
2.43.0


From 3625c38de7aa5e7c5189b484d1e60f2201b8cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 06/29] fix: RI does not alter or alias the arrays it is made
 from

Creating a material from arrays multiplied the caller's wavelengths by 1000,
a second material made from the same arrays was wrong.
---
 refellips/dispersion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index d7170f6..2d72213 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -90,8 +90,11 @@ class RI(ScattererSE):
             elif len(dispersion) == 3:
                 # this is if you have an (3, N) array or tuple specifying
                 # wavelength, RI, extinction coef.
-                # wavelength assumed to be in *nm*
-                self._wav, self._RI, self._EC = dispersion
+                # wavelength assumed to be in *microns*, convert to nm. These
+                # are copies, the arrays of the caller are left alone.
+                self._wav, self._RI, self._EC = (
+                    np.array(d, dtype=float) for d in dispersion
+                )
                 self._wav *= 1000
             else:
                 raise TypeError("format not recognised")
-- 
2.43.0


From 374c2ba4f945b530c34270212eeff18871b76e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 07/29] fix: RI reads dispersion files with a single row

---
 refellips/dispersion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 2d72213..e7aff89 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -76,7 +76,11 @@ class RI(ScattererSE):
                     name = os.path.basename(dispersion).split(".")[0]
 
                 vals = np.loadtxt(
-                    dispersion, skiprows=1, delimiter=",", encoding="utf8"
+                    dispersion,
+                    skiprows=1,
+                    delimiter=",",
+                    encoding="utf8",
+                    ndmin=2,
                 ).T
                 self._wav = vals[0]
                 self._RI = vals[1]
-- 
2.43.0


From c63bcfeab22899a880b40e27977337e431a4b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 08/29] fix: open_M2000file opens the file once, and reads
 handles

The second pass over a handle skipped measurements, and a file replaced
between the two opens was read as a mixture of both.
---
 refellips/dataSE.py | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 2e841dc..ba3ae0f 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -630,35 +630,36 @@ def open_M2000file(fname, take_every=1, dropdatapoints=1):
 
         if secondline == "nm":
             mode = "single"
-            skiplines = 3
+            skiplines = 0
         elif secondline == "Dynamic":
             mode = "dynamic"
-            skiplines = 4
+            skiplines = 1
         else:
             raise ValueError(
                 "Currently, only single and time-series datasets can be read"
             )
 
-    header = firstline[len("VASEmethod[") : -len("]")]
-    for ele in header.split(", "):
-        key, val = ele.split("=")
-        metadata[key] = val
-
-    if mode == "single":
-        return _open_M2000file_standard(
-            fname=fname,
-            dropdatapoints=dropdatapoints,
-            skiplines=skiplines,
-            metadata=metadata,
-        )
-    elif mode == "dynamic":
-        return _open_M2000file_kinetic(
-            fname=fname,
-            take_every=take_every,
-            dropdatapoints=dropdatapoints,
-            skiplines=skiplines,
-            metadata=metadata,
-        )
+        header = firstline[len("VASEmethod[") : -len("]")]
+        for ele in header.split(", "):
+            key, val = ele.split("=")
+            metadata[key] = val
+
+        # carry on reading the same file, the header lines have been consumed
+        if mode == "single":
+            return _open_M2000file_standard(
+                fname=file,
+                dropdatapoints=dropdatapoints,
+                skiplines=skiplines,
+                metadata=metadata,
+            )
+        elif mode == "dynamic":
+            return _open_M2000file_kinetic(
+                fname=file,
+                take_every=take_every,
+                dropdatapoints=dropdatapoints,
+                skiplines=skiplines,
+                metadata=metadata,
+            )
 
 
 def _open_M2000file_standard(fname, dropdatapoints=1, metadata={}, skiplines=3):
-- 
2.43.0


From f6fe1df301a2da3b77bd2e2582fd3aad34921871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 09/29] fix: open_M2000file keeps measurements less than 0.1 s
 apart

Datasets whose time stamps round to the same key overwrote each other.
---
 refellips/dataSE.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index ba3ae0f..8e07150 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -728,7 +728,11 @@ def _open_M2000file_kinetic(
     time_dict = {}
     for idx, (time, subdf) in enumerate(df.groupby("Time, min")):
         if idx % take_every == 0:
-            time_dict[np.round(time * 60, 1)] = DataSE(
+            key = np.round(time * 60, 1)
+            if key in time_dict:
+                # measurements closer together than the rounding
+                key = time * 60
+            time_dict[key] = DataSE(
                 np.array(
                     [
                         subdf["Wavelength, nm"],
-- 
2.43.0


From acdb7765889ac6834798a3515e39275eba822345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 10/29] fix: open_EP4file loads time series of several
 locations

Rows were selected with labels of the whole file and only the last location
of each time got its time stamp (KeyError: 'time').
---
 refellips/dataSE.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 8e07150..b360fc1 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -336,9 +336,11 @@ def open_EP4file(fname, reflect_delta=False):
         print("Treating as time series:")
         output = []
         for t in df["Time"].drop_duplicates():
-            tdf = df[df["Time"] == t]
-            output += _loadEP4(tdf)  # not sure if this will work
-            output[-1]["time"] = t
+            tdf = df[df["Time"] == t].reset_index(drop=True)
+            tops = _loadEP4(tdf)
+            for op in tops:
+                op["time"] = t
+            output += tops
     else:
         output = _loadEP4(df)
         for op in output:
-- 
2.43.0


From 2a5c9520a9cf2a3572786ba7b38f5de914d8b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 11/29] fix: copying a StructureSE keeps its settings

The mixing rule, orientation, contraction, wavelength and depolarisation
factor were reset to the defaults.
---
 refellips/structureSE.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 407b914..3cc6690 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -475,7 +475,15 @@ class StructureSE(Structure):
     sld_profile = None
 
     def __copy__(self):
-        s = StructureSE(name=self.name, solvent=self._solvent)
+        s = StructureSE(
+            name=self.name,
+            solvent=self._solvent,
+            reverse_structure=self.reverse_structure,
+            contract=self.contract,
+            wavelength=self.wavelength,
+            ema=self.ema,
+            depolarisation_factor=self.depolarisation_factor,
+        )
         s.data = self.data.copy()
         return s
 
-- 
2.43.0


From 6abf55628d2cc700ba4d15a657f26cfdebada893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 12/29] fix: overall_ri does not touch the process wide warning
 filters

warnings.catch_warnings is not thread safe: overlapping calls could leave all
RuntimeWarnings ignored for good, and swallowed those of other threads.
---
 refellips/structureSE.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 3cc6690..318cbdc 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -38,7 +38,6 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 import numpy as np
 import os
 import os.path
-import warnings
 import glob
 import operator
 from pathlib import PurePath
@@ -897,8 +896,7 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
         top = E_a + (depolarisation_factor * (1 - vf_B) + vf_B) * (E_b - E_a)
         bottom = E_a + depolarisation_factor * (1 - vf_B) * (E_b - E_a)
 
-        with warnings.catch_warnings():
-            warnings.filterwarnings("ignore", category=RuntimeWarning)
+        with np.errstate(all="ignore"):
             v = top / bottom
             v = np.where(np.isfinite(v), v, 0)
             E_avg = E_a * v
@@ -911,8 +909,7 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
             vf_B - depolarisation_factor
         )
 
-        with warnings.catch_warnings():
-            warnings.filterwarnings("ignore", category=RuntimeWarning)
+        with np.errstate(all="ignore"):
             v = (
                 b
                 + np.sqrt(
-- 
2.43.0


From 235b8340e74de091dc5267e13455e3a12e61e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 13/29] fix: StructureSE.plot puts the parameters back if
 plotting a sample fails

---
 refellips/structureSE.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 318cbdc..2675d6b 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -762,13 +762,16 @@ class StructureSE(Structure):
         if samples > 0:
             saved_params = np.array(params)
             # Get a number of chains, chosen randomly, and plot the model.
-            for pvec in self.parameters.pgen(ngen=samples):
-                params.pvals = pvec
-
-                ax.plot(*self.ri_profile(align=align), color="k", alpha=0.01)
-
-            # put back saved_params
-            params.pvals = saved_params
+            try:
+                for pvec in self.parameters.pgen(ngen=samples):
+                    params.pvals = pvec
+
+                    ax.plot(
+                        *self.ri_profile(align=align), color="k", alpha=0.01
+                    )
+            finally:
+                # put back saved_params
+                params.pvals = saved_params
 
         ax.plot(*self.ri_profile(align=align), color="red", zorder=20)
         ax.set_ylabel("$RI$")
-- 
2.43.0


From 61679dfe81c68b660ccebee69044b6e8be8dd591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 14/29] fix: plot_structure puts the orientation of the
 structure back

---
 tools/plottools.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tools/plottools.py b/tools/plottools.py
index 23f8e5d..9c54350 100644
--- a/tools/plottools.py
+++ b/tools/plottools.py
@@ -202,15 +202,20 @@ def plot_structure(
         colors = ["k"]
         alpha = 1
 
-    structure.reverse_structure = reverse_structure
-
-    for wav, col in zip(wavelengths, colors):
-        structure.wavelength = wav
-        ax.plot(
-            *structure.ri_profile(), color=col, alpha=alpha, label=f"{wav} nm"
-        )
-
-    structure.reverse_structure = False
+    saved_reverse = structure.reverse_structure
+    try:
+        structure.reverse_structure = reverse_structure
+
+        for wav, col in zip(wavelengths, colors):
+            structure.wavelength = wav
+            ax.plot(
+                *structure.ri_profile(),
+                color=col,
+                alpha=alpha,
+                label=f"{wav} nm",
+            )
+    finally:
+        structure.reverse_structure = saved_reverse
 
     if plot_labels:
         ax.set(ylabel="Refractive index", xlabel="Distance from substrate (Å)")
-- 
2.43.0


From 988b95097641d72cda7cefcdc9ea9be637f72233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:36 +0000
Subject: [PATCH 15/29] fix: open_M2000file keeps all measurements less than
 0.1 s apart

The fallback key of the previous fix could itself be taken.
---
 refellips/dataSE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index b360fc1..d9a54d2 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -728,10 +728,12 @@ def _open_M2000file_kinetic(
     )
 
     time_dict = {}
+    times = df["Time, min"].dropna().unique()
+    rounded = list(np.round(times * 60, 1))
     for idx, (time, subdf) in enumerate(df.groupby("Time, min")):
         if idx % take_every == 0:
             key = np.round(time * 60, 1)
-            if key in time_dict:
+            if rounded.count(key) > 1:
                 # measurements closer together than the rounding
                 key = time * 60
             time_dict[key] = DataSE(
-- 
2.43.0


From c2758b75806ead796041775f60826526c5af074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:59 +0000
Subject: [PATCH 16/29] fix: open_HORIBAfile works off Windows, with Path
 objects and handles

The "ANSI" codec only exists on Windows, names were made by slicing the
argument, the file was opened twice, and an empty data block was read on into
the following sections.
---
 refellips/dataSE.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index d9a54d2..4b2a47d 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -5,6 +5,8 @@ A basic representation of a 1D dataset
 """
 
 import copy
+from io import StringIO
+from itertools import takewhile
 import numpy as np
 import pandas as pd
 from refnx._lib import possibly_open_file
@@ -533,7 +535,10 @@ def open_HORIBAfile(
 
     """
 
-    name = fname[:-4]
+    name = fname
+    if hasattr(fname, "read"):
+        name = getattr(fname, "name", "")
+    name = str(name)[:-4]
     metadata = {}
     linenodict = {}
     MDingest = False
@@ -567,11 +572,10 @@ def open_HORIBAfile(
                         line
                     )  # append line to metadata entry
 
+    # the data block extends to the next blank line
+    data_lines = list(takewhile(str.strip, lines[linenodict["DATA"] + 1 :]))
     data_df = pd.read_csv(
-        fname,
-        skiprows=linenodict["DATA"] + 1,
-        nrows=len(metadata["DATA"]) - 1,
-        encoding="ANSI",
+        StringIO("".join(data_lines)),
         delimiter=" ",
         usecols=["nm", "Psi", "Delta"],
     )
-- 
2.43.0


From 81ec8ea6b62d640d51313695253f9490f980a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:52 +0000
Subject: [PATCH 17/29] fix: circular_distance of angles more than a period
 apart

With a delta offset the model delta exceeds 360 and the distance came out
negative or larger than half a period.
---
 refellips/objectiveSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index ce76f7d..6da4ea4 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -36,7 +36,7 @@ def circular_distance(angle1, angle2, period=360):
     Returns:
         float or np.ndarray: The shortest circular distance between the angles.
     """
-    diff = np.abs(angle1 - angle2)
+    diff = np.abs(angle1 - angle2) % period
     return np.minimum(diff, period - diff)
 
 
-- 
2.43.0


From 266d3c98b3ae8ebc9abead8b76fed7e7405db56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:52 +0000
Subject: [PATCH 18/29] fix: objectives sharing a model use the delta
 convention of their own data

The convention of whichever objective was made last was used for all.
---
 refellips/objectiveSE.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 6da4ea4..0cd69b9 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -180,6 +180,16 @@ class ObjectiveSE(BaseObjective):
         p.data = list(f_unique(p for p in flatten(self.parameters) if p.vary))
         return p
 
+    def _model_psi_delta(self, wavelength_aoi):
+        # The delta convention is that of the data of this objective. The model
+        # may be shared with objectives whose data have another convention.
+        saved_flip = self.model._flip_delta
+        self.model._flip_delta = self.data._delta_flipped
+        try:
+            return self.model(wavelength_aoi)
+        finally:
+            self.model._flip_delta = saved_flip
+
     def residuals(self, pvals=None):
         """
         Calculates the residuals for a given fitting system.
@@ -200,7 +210,7 @@ class ObjectiveSE(BaseObjective):
 
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
-        psi, delta = self.model(wavelength_aoi)
+        psi, delta = self._model_psi_delta(wavelength_aoi)
         delta_err = circular_distance(delta, delta_d, period=360)
         return np.r_[psi - psi_d, delta_err]
 
@@ -389,7 +399,7 @@ class ObjectiveSE(BaseObjective):
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
 
-        psi, delta = self.model(wavelength_aoi)
+        psi, delta = self._model_psi_delta(wavelength_aoi)
 
         logl = 0.0
 
@@ -572,7 +582,7 @@ class ObjectiveSE(BaseObjective):
         """
 
         data = self.data
-        model = self.model
+        model = self._model_psi_delta
 
         if fig is None:
             import matplotlib.pyplot as plt
-- 
2.43.0


From e9689e5eb20243682a6a06ac4f7525df0efcd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:52 +0000
Subject: [PATCH 19/29] fix: coh_tmm for total internal reflection at a
 transparent backing medium

The wave growing away from the interface was chosen, giving the mirrored
delta.
---
 refellips/reflect_modelSE.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index cb1593f..4ea9efc 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -142,6 +142,14 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
     # (NLAYERS, NUMPNTS)
     th_list = arcsin(n_list[0] * np.sin(th_0[None, :]) / n_list[:, None])
 
+    # The wave in the backing medium has to be the one that decays away from
+    # the interface. arcsin picks the other one for total internal reflection.
+    th_list[-1] = np.where(
+        np.imag(n_list[-1] * np.cos(th_list[-1])) < -100 * EPSILON,
+        np.pi - th_list[-1],
+        th_list[-1],
+    )
+
     # kz is the z-component of (complex) angular wavevector for forward-moving
     # wave. Positive imaginary part means decaying.
     # kz_list.shape = (NLAYERS, NUMPOINTS)
-- 
2.43.0


From 77f7819429c1337415b8f0d1a147ced2733be354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:41 +0000
Subject: [PATCH 20/29] fix: ObjectiveSE.logl includes model.logp and
 logp_extra

As documented, and as refnx.analysis.Objective does. They were ignored.
---
 refellips/objectiveSE.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 0cd69b9..c08cd3c 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -426,7 +426,13 @@ class ObjectiveSE(BaseObjective):
         if np.isnan(logl).any():
             raise RuntimeError("ObjectiveSE.logl encountered a NaN.")
 
-        return -0.5 * np.sum(logl)
+        # add on extra 'potential' terms from the model.
+        extra_potential = self.model.logp()
+
+        if self.logp_extra is not None:
+            extra_potential += self.logp_extra(self.model, self.data)
+
+        return -0.5 * np.sum(logl) + extra_potential
 
     def logpost(self, pvals=None):
         """
-- 
2.43.0


From 8e9716f360847dea6b785d0498aafec42cb03bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:53 +0000
Subject: [PATCH 21/29] fix: DataSE.refresh does not change the dataset if
 closing the file fails

---
 refellips/dataSE.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 4b2a47d..eb42738 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -292,8 +292,7 @@ class DataSE(object):
 
         """
         if self.filename is not None:
-            with possibly_open_file(self.filename) as f:
-                self.load(f)
+            self.load(self.filename)
 
 
 def open_EP4file(fname, reflect_delta=False):
-- 
2.43.0


From 6e937ba3db3e17667652c1999e9257f6c130c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:46 +0000
Subject: [PATCH 22/29] fix: open_FilmSenseFile keeps measurements with the
 same time stamp

---
 refellips/dataSE.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index eb42738..68c1919 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -939,8 +939,11 @@ def _open_FilmSenseFile_dynamic(f):
         AOI = np.ones_like(Psi) * metadata["nomAOI"]
         Wvl = np.array(df["Wavelength"]).astype(np.float64)
 
-        time_series[time] = DataSE(
-            data=[Wvl, AOI, Psi, Delta], reflect_delta=False, **metadata
-        )
+        data = [Wvl, AOI, Psi, Delta]
+        if time in time_series:
+            # measurements with the same time stamp belong to one dataset
+            data = [np.r_[a, b] for a, b in zip(time_series[time].data, data)]
+
+        time_series[time] = DataSE(data=data, reflect_delta=False, **metadata)
 
     return time_series
-- 
2.43.0


From 2fcd639e59d58183d370f1e305677ec4ce7ae6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:01 +0000
Subject: [PATCH 23/29] fix: a parameter vector with an invalid value is
 rejected as a whole

---
 refellips/objectiveSE.py     | 3 +++
 refellips/reflect_modelSE.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index c08cd3c..ee696f3 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -259,6 +259,9 @@ class ObjectiveSE(BaseObjective):
         if pvals is None:
             return
 
+        # a vector with an invalid value is rejected before any value is set
+        pvals = [np.float64(v) for v in np.array(pvals)]
+
         # set here rather than delegating to a Parameters
         # object, because it may not necessarily be a
         # Parameters object
diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index 4ea9efc..c4e0f78 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -380,7 +380,8 @@ class ReflectModelSE:
 
         """
         if p is not None:
-            self.parameters.pvals = np.array(p)
+            # a vector with an invalid value is rejected before any is set
+            self.parameters.pvals = [np.float64(v) for v in np.array(p)]
 
         wavelength, aois = wavelength_aoi.T
         psi = np.zeros_like(wavelength)
-- 
2.43.0


From ffa36f5e2ca75eea8bd43a4c7f1711739a6cb21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 24/29] fix: RI interpolates dispersion curves whose
 wavelengths are not increasing

---
 refellips/dispersion.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index e7aff89..040b590 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -103,6 +103,13 @@ class RI(ScattererSE):
             else:
                 raise TypeError("format not recognised")
 
+        if self._wav is not None:
+            # np.interp needs the wavelengths in increasing order
+            order = np.argsort(self._wav, kind="stable")
+            self._wav = self._wav[order]
+            self._RI = self._RI[order]
+            self._EC = self._EC[order]
+
     @property
     def parameters(self):
         return Parameters(name=self.name)
-- 
2.43.0


From 59f9cf63b41e52cc278b789b4e1ec5d2a14702ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:28 +0000
Subject: [PATCH 25/29] fix: layers with a shaped interface are solvated by the
 backing medium when no solvent is given

Structure._micro_slabs passes StructureSE.solvent, which is None unless one
was specified, and overall_ri then left the layers unsolvated.
---
 refellips/structureSE.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 2675d6b..556dbd1 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -848,7 +848,10 @@ class StructureSE(Structure):
             solv = solvent.complex(self.wavelength)
 
         if solv is None:
-            return slabs
+            # no solvent specified, it's the backing medium that solvates
+            backing = self[0] if self.reverse_structure else self[-1]
+            backing_slab = backing.slabs(structure=self)[-1]
+            solv = complex(backing_slab[1], backing_slab[2])
 
         vf = slabs[..., 4]
         N = slabs[..., 1] + slabs[..., 2] * 1j
-- 
2.43.0


From 71c5cbdee7fc301de510d139f5e9317f4e67676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:28 +0000
Subject: [PATCH 26/29] fix: ReflectModelSE.model accepts any array-like of
 points

Integer wavelengths/angles truncated psi and delta to integers, and nested
lists failed although the documentation asks for array-like.
---
 refellips/reflect_modelSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index c4e0f78..473fc5b 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -383,7 +383,7 @@ class ReflectModelSE:
             # a vector with an invalid value is rejected before any is set
             self.parameters.pvals = [np.float64(v) for v in np.array(p)]
 
-        wavelength, aois = wavelength_aoi.T
+        wavelength, aois = np.asarray(wavelength_aoi, dtype=np.float64).T
         psi = np.zeros_like(wavelength)
         delta = np.zeros_like(wavelength)
 
-- 
2.43.0


From 3fc9973ae69970caaa5f96b794e513ec64fb652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:40 +0000
Subject: [PATCH 27/29] fix: thick layers in total internal reflection do not
 overflow

Only the wave in the backing medium was chosen as the decaying one; a thick
layer beyond its critical angle overflowed and psi and delta became NaN.
---
 refellips/reflect_modelSE.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index 473fc5b..d96c9f3 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -142,12 +142,13 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
     # (NLAYERS, NUMPNTS)
     th_list = arcsin(n_list[0] * np.sin(th_0[None, :]) / n_list[:, None])
 
-    # The wave in the backing medium has to be the one that decays away from
-    # the interface. arcsin picks the other one for total internal reflection.
-    th_list[-1] = np.where(
-        np.imag(n_list[-1] * np.cos(th_list[-1])) < -100 * EPSILON,
-        np.pi - th_list[-1],
-        th_list[-1],
+    # The wave in every medium has to be the one that decays away from the
+    # interface. arcsin picks the other one for total internal reflection,
+    # which makes thick layers overflow.
+    th_list[1:] = np.where(
+        np.imag(n_list[1:, None] * np.cos(th_list[1:])) < -100 * EPSILON,
+        np.pi - th_list[1:],
+        th_list[1:],
     )
 
     # kz is the z-component of (complex) angular wavevector for forward-moving
-- 
2.43.0


From f4b0e8bf317da355939f6619405df513ac91b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:01 +0000
Subject: [PATCH 28/29] fix: a dataset made from another has its own metadata

---
 refellips/dataSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 68c1919..d5837e9 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -95,7 +95,7 @@ class DataSE(object):
             self.name = data.name
             self.filename = data.filename
             self.delimiter = data.delimiter
-            self.metadata = data.metadata
+            self.metadata = dict(data.metadata)
             self._wavelength = np.array(data._wavelength)
             self._aoi = np.array(data._aoi)
             self._psi = np.array(data._psi)
-- 
2.43.0


From c6b8d2a1f606f1de920baaf99bd799a161f6e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:01 +0000
Subject: [PATCH 29/29] fix: Delta_Psi_TMM leaves the array of layers it is
 given alone

---
 refellips/reflect_modelSE.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index d96c9f3..539ed4b 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -280,6 +280,8 @@ def Delta_Psi_TMM(AOI, layers, wavelength, delta_offset, reflect_delta=False):
     AOI = np.asarray(AOI, np.float64)
     AOI = AOI * (np.pi / 180)
 
+    # this is a copy, the array of the caller is left alone.
+    layers = np.array(layers, np.float64)
     layers[0, 2] = 0  # infinate medium cannot have an extinction coeff
     RIs = layers[:, 1] + layers[:, 2] * 1j
     thicks = layers[:, 0] / 10  # Ang to nm
-- 
2.43.0

