From 2a69a5e3d2ca780feb23da41964bb087b7242924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:37 +0000
Subject: [PATCH 01/39] fix: honour gran_logic when calibrating and in the
 second solver pass

---
 calkulate/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index 355085f..2b76802 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -706,6 +706,7 @@ def solve_emf(
             alkalinity_init=sr.alkalinity,
             double=False,  # if True this becomes an infinite loop, so don't
             emf0_init=sr.emf0,
+            gran_logic=gran_logic,
             pH_min=pH_min,
             pH_max=pH_max,
             titrant_normality=titrant_normality,
@@ -875,6 +876,7 @@ def _lsqfun_calibrate_emf(
     alkalinity_init,
     double,
     emf0_init,
+    gran_logic,
     pH_min,
     pH_max,
     titrant_normality,
@@ -902,6 +904,7 @@ def _lsqfun_calibrate_emf(
         alkalinity_init=alkalinity_init,
         double=double,
         emf0_init=emf0_init,
+        gran_logic=gran_logic,
         pH_min=pH_min,
         pH_max=pH_max,
         titrant_normality=titrant_normality,
@@ -933,6 +936,7 @@ def calibrate_emf(
     pH_max=4,
     titrant_molinity_init=0.1,
     titrant_normality=1,
+    gran_logic="v23.7+",
     **titrant_totals,
 ):
     """Solve for `titrant_molinity` given `alkalinity_certified`.
@@ -967,6 +971,9 @@ def calibrate_emf(
         which are used with pH_min and pH_max to find the data points to use
         for solving.  By default None, in which case this is estimated using
         the Gran approach (see `gran_guesses`).
+    gran_logic : str, optional
+        Which data points to use for the Gran-plot estimates, "v23.7+"
+        (default) or "legacy".
     pH_min : float, optional
         Minimum pH to use from the titration data, by default 3.
     pH_max : float, optional
@@ -997,6 +1004,7 @@ def calibrate_emf(
             alkalinity_init,
             double,
             emf0_init,
+            gran_logic,
             pH_min,
             pH_max,
             titrant_normality,
-- 
2.43.0


From e9298a0357c35e9c9884421c23fb003a01260f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:40 +0000
Subject: [PATCH 02/39] fix: dataset functions no longer override salt and unit
 kwargs with their own defaults

---
 calkulate/dataset.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1b62fbf..6f8d141 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -13,23 +13,37 @@ from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .meta import _get_kwargs_for
 
 
-def get_total_salts(ds):
+def get_total_salts(ds, **kwargs):
     """Estimate total salt contents from salinity using PyCO2SYS without
-    overwriting existing values.  Operates in-place.
+    overwriting existing values.  Operates in-place.  Values that are not in
+    the dataset are taken from the kwargs, if they are there.
     """
     assert "salinity" in ds, 'Dataset must contain a "salinity" column.'
     # Use opt_total_borate = 1 where it's not provided
+    opt_total_borate = kwargs.get("opt_total_borate", 1)
     if "opt_total_borate" in ds:
         ds["opt_total_borate"] = ds.opt_total_borate.where(
-            ds.opt_total_borate.notnull(), 1
+            ds.opt_total_borate.notnull(), opt_total_borate
         )
     else:
-        ds["opt_total_borate"] = 1
+        ds["opt_total_borate"] = opt_total_borate
+    # Use opt_k_carbonic = 10 where it's not provided
+    opt_k_carbonic = kwargs.get("opt_k_carbonic", 10)
+    if "opt_k_carbonic" in ds:
+        opt_k_carbonic = ds.opt_k_carbonic.where(
+            ds.opt_k_carbonic.notnull(), opt_k_carbonic
+        ).values
     salts = ["total_sulfate", "total_borate", "total_fluoride"]
+    for salt in salts:
+        if salt in kwargs:
+            if salt not in ds:
+                ds[salt] = np.nan
+            ds[salt] = ds[salt].where(ds[salt].notnull(), other=kwargs[salt])
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
         results = pyco2.sys(
             salinity=ds.salinity.values,
+            opt_k_carbonic=opt_k_carbonic,
             opt_total_borate=ds.opt_total_borate.values,
         )
         for salt in salts:
@@ -107,8 +121,8 @@ def get_batches(ds):
     return batches
 
 
-def prepare(ds):
-    get_total_salts(ds)
+def prepare(ds, **kwargs):
+    get_total_salts(ds, **kwargs)
     # Get analyte_mass from analyte_volume if required
     if "analyte_mass" not in ds:
         assert "analyte_volume" in ds, (
@@ -120,7 +134,7 @@ def prepare(ds):
     if "titrant_amount_unit" in ds:
         ds["titrant_amount_unit"] = np.where(
             pd.isnull(ds.titrant_amount_unit),
-            "ml",
+            kwargs.get("titrant_amount_unit", "ml"),
             ds.titrant_amount_unit,
         )
     if "file_good" not in ds:
@@ -145,7 +159,7 @@ def calibrate(ds, verbose=False, **kwargs):
         The titration metadataset with additional columns found by the solver.
     """
     print("Calkulate: calibrating titrant_molinity...")
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "alkalinity_certified" in ds, (
         'ds must contain an "alkalinity_certified" column!'
     )
@@ -254,7 +268,7 @@ def solve(ds, verbose=False, **kwargs):
             "kwargs not recognised, being ignored: "
             + ("{} " * len(kwargs_ignored)).format(*kwargs_ignored)
         )
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "titrant_molinity" in ds, (
         'ds must contain an "titrant_molinity" column!'
     )
-- 
2.43.0


From ac1a8548f4edaadecd60cd63f7bd51c44a79afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:55 +0000
Subject: [PATCH 03/39] fix: Titration ignores missing values in its dataset
 row, like Dataset.solve

---
 calkulate/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8ac59d5..4c0e81a 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -173,7 +173,7 @@ class Titration:
         self.kwargs = _backcompat(kwargs, row)
         for k, v in kwargs.items():
             self.row[k] = v
-        self.sr = solve(**self.row)
+        self.sr = solve(**self.row.dropna())
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
             "temperature": self.sr.temperature,
-- 
2.43.0


From 8a24ae15be64105bf51a3312c2e8d40fe057f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:55 +0000
Subject: [PATCH 04/39] fix: Titration gets analyte_mass when only
 analyte_volume is given

---
 calkulate/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 4c0e81a..3cb71af 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -181,6 +181,8 @@ class Titration:
             "used": self.sr.used,
         }
         self.row = add_solve_results(self.row, self.sr)
+        # In case only analyte_volume was provided
+        self.row["analyte_mass"] = self.sr.analyte_mass
         if isinstance(self.sr, SolveEmfResult):
             self.t.update(
                 {
-- 
2.43.0


From a795326f92af929833ca19127e069ef0682d7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 05/39] fix: Titration accounts for titrant_normality in its
 titration table

---
 calkulate/classes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 3cb71af..27f5240 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -236,10 +236,16 @@ class Titration:
             f = self.ro.file_name
         return f'calkulate.Titration for file "{f}"'
 
+    def _get_titrant_normality(self):
+        titrant_normality = self.row.get("titrant_normality", 1)
+        return 1 if pd.isnull(titrant_normality) else titrant_normality
+
     def get_alkalinity_from_acid(self):
         self.titration["alkalinity_from_acid"] = (
             1e-6 * self.alkalinity * self.analyte_mass
-            - self.titration.titrant_mass * self.titrant_molinity
+            - self.titration.titrant_mass
+            * self.titrant_molinity
+            * self._get_titrant_normality()
         ) / (self.analyte_mass + self.titration.titrant_mass)
 
     def do_CO2SYS(self):
@@ -299,6 +305,7 @@ class Titration:
             st.alkalinity_from_pH
             + st.titrant_mass
             * self.titrant_molinity
+            * self._get_titrant_normality()
             / (st.titrant_mass + self.analyte_mass)
         ) / st.dilution_factor
 
-- 
2.43.0


From 85cd2b7f658cfc5a05ded27d2effd9da44018a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 06/39] fix: Titration string representation works without
 file_path

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 27f5240..dc742ee 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -226,14 +226,14 @@ class Titration:
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def _get_titrant_normality(self):
-- 
2.43.0


From 4f27cb57c0ddd505012bcef94b9e3c582ff0cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 07/39] fix: Titration can be copied and pickled

---
 calkulate/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index dc742ee..73d8064 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -210,6 +210,8 @@ class Titration:
         try:
             return object.__getattribute__(self, attr)
         except AttributeError:
+            if attr == "row":  # not set yet, e.g. when copying or unpickling
+                raise
             try:
                 return self.row[attr]
             except KeyError:
-- 
2.43.0


From b5893a4a267dcbe780208b923642bb2e11c0ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 08/39] fix: keep negative values when reading PC LIMS reports

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index ab45ee3..3b4ea37 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -46,7 +46,7 @@ def read_dat_pclims(
     with open(file_name, mode="r", encoding="unicode-escape") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
-    re_data = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (n_cols - 1))
+    re_data = re.compile(r"[-\d\.]*" + r"\t[-\d\.]*" * (n_cols - 1))
     data = []
     i = 0
     stop = False
-- 
2.43.0


From e6d04feb2f2ffbdeef64d9e4c0969c25f7a92993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 09/39] fix: name the unrecognised file_type in the warning

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index 3b4ea37..3548eeb 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -171,8 +171,8 @@ keys_read_dat = {
 def read_dat(file_name, file_type="genfromtxt", **kwargs):
     """Import a titration dataset from a .dat file."""
     if file_type not in file_types:
-        file_type = "genfromtxt"
         warn(f"method '{file_type}' not recognised, trying 'genfromtxt'.")
+        file_type = "genfromtxt"
     dat_data = file_types[file_type](file_name, **kwargs)
     return dat_data
 
-- 
2.43.0


From 020e6aec948082ad7a8de3da0c443b4fd5232a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 10/39] fix: keep leading zeros of bottle names in read_dbs
 file names

---
 calkulate/read/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 71c6477..5ceb9e0 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -114,7 +114,11 @@ def read_dbs(
     """
     headers = np.genfromtxt(fname, delimiter="\t", dtype=str, max_rows=1)
     dbs = pd.read_table(
-        fname, header=0, names=headers, usecols=headers
+        fname,
+        header=0,
+        names=headers,
+        usecols=headers,
+        dtype={"bottle": str},  # to keep leading zeros
     ).rename(columns={"run type": "run_type"})
     dbs["dbs_fname"] = fname
     dbs = add_func_cols(dbs, dbs_datetime)
-- 
2.43.0


From 25311037fa52ad247ce082350a173252996bb4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 11/39] fix: rows without an analysis_batch no longer stop the
 calibration

---
 calkulate/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 6f8d141..7648e42 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -173,9 +173,9 @@ def calibrate(ds, verbose=False, **kwargs):
     if "reference_good" not in ds:
         ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
     batches = get_batches(ds)
-    ds["titrant_molinity"] = batches.loc[
-        ds.analysis_batch, "titrant_molinity"
-    ].to_numpy()
+    ds["titrant_molinity"] = batches.titrant_molinity.reindex(
+        ds.analysis_batch
+    ).to_numpy()
     print("Calkulate: calibration complete!")
     ds = solve(ds, verbose=verbose, **kwargs)
     return ds
-- 
2.43.0


From a291b2432710abea25f8ed552f20e6ca2b90f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 12/39] fix: titrant totals can be added when the analyte has
 none of them

---
 calkulate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 2b76802..d7f1958 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -509,7 +509,7 @@ def add_titrant_totals(
     for t_total, factor in titrant_totals.items():
         assert t_total.startswith("titrant_total_")
         total = t_total[8:]
-        totals[total] += (
+        totals[total] = totals.get(total, 0) + (
             titrant_mass
             * (titrant_molinity - titrant_molinity_prev)
             * factor
-- 
2.43.0


From 6bc29c08da8497fa4501ef0b3d5ee0c4c7310885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 13/39] fix: temperature_override is not truncated for integer
 temperatures

---
 calkulate/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/convert.py b/calkulate/convert.py
index c8798de..52a1bf4 100644
--- a/calkulate/convert.py
+++ b/calkulate/convert.py
@@ -206,7 +206,9 @@ def amount_units(
     dd = dat_data
     # Overwrite temperature, if requested
     if temperature_override is not None:
-        temperature = np.full_like(dd.temperature, temperature_override)
+        temperature = np.full_like(
+            dd.temperature, temperature_override, dtype=float
+        )
     else:
         temperature = dd.temperature
     # Get titrant mass
-- 
2.43.0


From 80cbdf37223d86c0ce09c1a6608285e33b3b7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:07 +0000
Subject: [PATCH 14/39] fix: provide calkulate as a top-level function, as
 documented

---
 calkulate/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/__init__.py b/calkulate/__init__.py
index 146e88f..0b94fc5 100644
--- a/calkulate/__init__.py
+++ b/calkulate/__init__.py
@@ -16,7 +16,7 @@
 """Determine (sea)water total alkalinity from titration data."""
 
 from .classes import Dataset, Titration, to_Titration
-from .dataset import calibrate, solve
+from .dataset import calibrate, calkulate, solve
 from .meta import __author__, __version__, hello
 from .read.metadata import (
     read_clipboard,
@@ -38,6 +38,7 @@ __all__ = [
     "say_hello",
     "Dataset",
     "calibrate",
+    "calkulate",
     "solve",
     "read_dat",
     "read_clipboard",
-- 
2.43.0


From 393483f4585fb9447f6d45785249ee345cfa8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:39 +0000
Subject: [PATCH 15/39] fix: read_dbs copes with a missing analysis time

---
 calkulate/read/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 5ceb9e0..330f3a3 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -44,7 +44,7 @@ def dbs_datetime(dbs_row):
             + "T"
             + dbs_row["time"]
         )
-    except AttributeError:
+    except (AttributeError, TypeError):
         analysis_datetime = np.datetime64("NaT")
     return pd.Series(
         {
-- 
2.43.0


From 9319670929abcce4da3e2cab0e46f840048537ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:39 +0000
Subject: [PATCH 16/39] fix: components plot returns its axes like the other
 plots

---
 calkulate/plot/titration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/plot/titration.py b/calkulate/plot/titration.py
index 9fe2ff4..891332b 100644
--- a/calkulate/plot/titration.py
+++ b/calkulate/plot/titration.py
@@ -419,3 +419,4 @@ def components(tt, ax=None, log_scale=True):
         ax.set_ylabel("Content / μmol/kg-sw")
     ax.legend(bbox_to_anchor=(1.05, 1))
     add_credit(ax)
+    return ax
-- 
2.43.0


From c3bd57311986e32c44ee80d6ac0bb1c0ad2ca3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:47 +0000
Subject: [PATCH 17/39] fix: pH_adjust mode really adjusts EMF0
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Starting from EMF0 = 0, the unscaled trust region (in mol/kg and mV) was so
small that the solver stopped before EMF0 had moved, leaving the alkalinity
wrong by up to hundreds of µmol/kg for an electrode that is off by a few mV.
---
 calkulate/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/settings.py b/calkulate/settings.py
index 4563be3..70fb947 100644
--- a/calkulate/settings.py
+++ b/calkulate/settings.py
@@ -1 +1,3 @@
-kwargs_least_squares = {}
+# Scale the variables by their effect on the residuals, otherwise the solver can
+# stop before EMF0 (in mV) has been adjusted because alkalinity is in mol/kg
+kwargs_least_squares = {"x_scale": "jac"}
-- 
2.43.0


From 8c24658af3efeaa56b9c9ffc730c13e9608bd129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:57 +0000
Subject: [PATCH 18/39] fix: calibrating leaves the caller's totals as they
 were

The titrant's contribution was added to and subtracted from the dict passed in,
which left rounding errors and new keys in it, or the whole contribution if the
solver failed part way.
---
 calkulate/core.py | 33 +++------------------------------
 1 file changed, 3 insertions(+), 30 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index d7f1958..be9c021 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -885,7 +885,7 @@ def _lsqfun_calibrate_emf(
     """Calculate residuals for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
-        totals,
+        totals.copy(),  # leave the original totals as they are
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -909,15 +909,6 @@ def _lsqfun_calibrate_emf(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
@@ -1031,7 +1022,7 @@ def _lsqfun_calibrate_pH(
     """Calculate residuals for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
-        totals,
+        totals.copy(),  # leave the original totals as they are
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -1051,15 +1042,6 @@ def _lsqfun_calibrate_pH(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
@@ -1151,7 +1133,7 @@ def _lsqfun_calibrate_pH_gran(
     """Calculate residuals for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
-        totals,
+        totals.copy(),  # leave the original totals as they are
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -1171,15 +1153,6 @@ def _lsqfun_calibrate_pH_gran(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
-- 
2.43.0


From 8ad75948ad0a608cfb258c4ba1dc5f9615eb14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:38 +0000
Subject: [PATCH 19/39] fix: calibration no longer stops early because of
 numerical noise in the solver

---
 calkulate/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index be9c021..42b06e6 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -1000,6 +1000,9 @@ def calibrate_emf(
             pH_max,
             titrant_normality,
         ),
+        # The alkalinity comes from a solver too, so it has numerical noise: use
+        # a big enough step to find its slope, otherwise this can stop too soon
+        diff_step=1e-5,
         kwargs=titrant_totals,
         **kwargs_least_squares,
     )
-- 
2.43.0


From c987b8978bc79570aac00438f4645d21edb872e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:37 +0000
Subject: [PATCH 20/39] fix: one unusable salinity no longer stops the whole
 table

---
 calkulate/dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 7648e42..bace9e4 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -42,7 +42,10 @@ def get_total_salts(ds, **kwargs):
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
         results = pyco2.sys(
-            salinity=ds.salinity.values,
+            # Unusable values give missing salts, for that row only
+            salinity=pd.to_numeric(ds.salinity, errors="coerce").to_numpy(
+                dtype=float
+            ),
             opt_k_carbonic=opt_k_carbonic,
             opt_total_borate=ds.opt_total_borate.values,
         )
-- 
2.43.0


From 6bac10447908a4fed0977bb180907ec8c42f09fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:47 +0000
Subject: [PATCH 21/39] fix: a row that cannot be solved from pH is reported
 and gets no results

---
 calkulate/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index bace9e4..2069c33 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -236,6 +236,8 @@ def solve_row(row, verbose=False, **kwargs):
                 row.salinity,
                 **kwargs_solve,
             )
+            if not np.isfinite(sr.alkalinity):
+                raise Exception("No alkalinity value could be found.")
             solved = add_solve_results(solved, sr)
         except Exception as e:
             print(f'Error solving "{row.file_name}":')
-- 
2.43.0


From a327c32486aff2700a10c7dac1ef6b0f1c1898d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:30 +0000
Subject: [PATCH 22/39] fix: calibrating a table in which no row belongs to a
 batch no longer stops

---
 calkulate/dataset.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 2069c33..c2f28cb 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -120,6 +120,14 @@ def get_batches(ds):
         ds[["analysis_batch", "titrant_molinity_here", "reference_good"]]
         .groupby(by="analysis_batch")
         .apply(get_group_calibration, include_groups=False)
+        # For when no row belongs to any batch
+        .reindex(
+            columns=[
+                "titrant_molinity",
+                "titrant_molinity__std",
+                "titrant_molinity__count",
+            ]
+        )
     )
     return batches
 
-- 
2.43.0


From 3e1f57dcc11cfeb982ad3a770eda00831dddc436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:11 +0000
Subject: [PATCH 23/39] fix: a missing read_dat_method in a row falls back to
 the argument

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index c2f28cb..e6ec972 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -69,7 +69,7 @@ def _backcompat(kwargs, row):
     for old, new in old2new.items():
         if old in kwargs:
             kwargs[new] = kwargs[old]
-        if "read_dat_method" in row:
+        if old in row and pd.notnull(row[old]):
             kwargs[new] = row[old]
     return kwargs
 
-- 
2.43.0


From 5a3766a26babbf2e2f362180e247d134b48c2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:22 +0000
Subject: [PATCH 24/39] fix: file_type given to a Titration overrides an
 old-style read_dat_method in its row

---
 calkulate/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 73d8064..c06f45d 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -170,8 +170,9 @@ class Titration:
 
     def __init__(self, row, **kwargs):
         self.row = row.copy()
-        self.kwargs = _backcompat(kwargs, row)
-        for k, v in kwargs.items():
+        # Old-style values in the row first, so that kwargs overwrite them
+        self.kwargs = {**_backcompat({}, row), **_backcompat(kwargs, {})}
+        for k, v in self.kwargs.items():
             self.row[k] = v
         self.sr = solve(**self.row.dropna())
         self.t = {
-- 
2.43.0


From aab5fa9b9a359096198016ebba2a94ba4182d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 25/39] fix: column and header options can be missing in some
 rows of a table

---
 calkulate/read/titrations.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index 3548eeb..0b16bf1 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -166,6 +166,13 @@ keys_read_dat = {
     "n_cols",
     "skip_header",
 }
+keys_read_dat_int = {
+    "col_measurement",
+    "col_temperature",
+    "col_titrant_amount",
+    "n_cols",
+    "skip_header",
+}
 
 
 def read_dat(file_name, file_type="genfromtxt", **kwargs):
@@ -173,6 +180,10 @@ def read_dat(file_name, file_type="genfromtxt", **kwargs):
     if file_type not in file_types:
         warn(f"method '{file_type}' not recognised, trying 'genfromtxt'.")
         file_type = "genfromtxt"
+    # Whole numbers become floats in dataset columns with missing values
+    for k in keys_read_dat_int:
+        if isinstance(kwargs.get(k), float) and kwargs[k].is_integer():
+            kwargs[k] = int(kwargs[k])
     dat_data = file_types[file_type](file_name, **kwargs)
     return dat_data
 
-- 
2.43.0


From 1dcac5eac93de44f9799e3a3fb8977cbee9b2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:28 +0000
Subject: [PATCH 26/39] fix: read_dbs file names with blank batches or bottles
 in the file

---
 calkulate/read/metadata.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 330f3a3..e3ac6d7 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -53,6 +53,16 @@ def dbs_datetime(dbs_row):
     )
 
 
+def _dbs_text(value):
+    """Text of a value from the dbs as in the file (blank if missing)."""
+    if pd.isnull(value):
+        return ""
+    # Whole numbers become floats in columns with missing values
+    if isinstance(value, float) and value.is_integer():
+        value = int(value)
+    return str(value)
+
+
 def get_VINDTA_filenames(dbs, filename_format="{s}-{c}  {n}  ({d}){b}.dat"):
     """Determine VINDTA filenames, assuming defaults were used, based on the
     dbs.
@@ -67,10 +77,12 @@ def get_VINDTA_filenames(dbs, filename_format="{s}-{c}  {n}  ({d}){b}.dat"):
                 c=int(row.cast),
                 n=int(row.niskin),
                 d=int(row.depth),
-                b=row.bottle,
+                b=_dbs_text(row.bottle),
             )
         elif row.run_type == "CRM":
-            dbs.loc[i, "file_name"] = f"CRM{row.batch}{row.bottle}.dat"
+            dbs.loc[i, "file_name"] = (
+                f"CRM{_dbs_text(row.batch)}{_dbs_text(row.bottle)}.dat"
+            )
             dbs.loc[i, "alkalinity_certified"] = row["cert. CRM AT"]
         else:
             dbs.loc[i, "file_good"] = False
-- 
2.43.0


From 9429530da614cc1873242b2c3e3e773522b5f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:13 +0000
Subject: [PATCH 27/39] fix: simulated DIC loss starts from diluted DIC when
 titrant_mass_start is not zero

---
 calkulate/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/simulate.py b/calkulate/simulate.py
index e4643a0..d08d0ab 100644
--- a/calkulate/simulate.py
+++ b/calkulate/simulate.py
@@ -235,7 +235,7 @@ def _titration(
     # Model DIC loss
     if k_dic_loss is not None:
         dic_titration = np.full_like(titrant_mass, np.nan)
-        dic_titration[0] = dic
+        dic_titration[0] = dic * dilution_factor[0]
         for i in range(len(dic_titration) - 1):
             kwargs_i = {
                 k: v if np.isscalar(v) else v[i]
-- 
2.43.0


From bd8e1a8e7df96f572994b68b507dd92e637d880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:23 +0000
Subject: [PATCH 28/39] fix: DIC loss fit failed with recent NumPy (one-element
 array set as an array element)

---
 calkulate/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/loss.py b/calkulate/loss.py
index 4cf9918..5610145 100644
--- a/calkulate/loss.py
+++ b/calkulate/loss.py
@@ -35,7 +35,7 @@ def _lsqfun_dic_loss_model(
 ):
     return (
         dic_loss_model_fitted(
-            k_dic_loss,
+            k_dic_loss[0],  # least_squares provides an array
             i_titrant_mass,
             i_delta_fCO2,
             dic_start,
@@ -174,7 +174,7 @@ def get_dic_loss_hires(
             i_dic_loss,
         ),
     )
-    k_dic_loss = k_dic_loss_opt_result["x"]
+    k_dic_loss = k_dic_loss_opt_result["x"][0]
     # Calculate DIC from k_dic_loss in the fitted region
     i_dic = dic_loss_model_fitted(
         k_dic_loss,
@@ -202,7 +202,7 @@ def get_dic_loss_hires(
         step_tm,
         fCO2_air=fCO2_air,
     )
-    return k_dic_loss[0], {
+    return k_dic_loss, {
         "titrant_mass": a_titrant_mass,
         "pH": a_pH,
         "dic": np.concatenate((i_dic, f_dic)),
-- 
2.43.0


From 1ffad329f411acb2cbf8aac39ace27baf03c20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 29/39] fix: units of the alkalinity offset on its plot

---
 calkulate/plot/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/plot/__init__.py b/calkulate/plot/__init__.py
index cca12ae..6d05783 100644
--- a/calkulate/plot/__init__.py
+++ b/calkulate/plot/__init__.py
@@ -119,7 +119,7 @@ def alkalinity_offset(
     misc.add_credit(ax)
     ax.set_xlabel(xlabel)
     ax.set_ylabel(
-        r"$\Delta$ Alkalinity (measured $-$ certified) / mol$\cdot$kg$^{-1}$"
+        r"$\Delta$ Alkalinity (measured $-$ certified) / $\mu$mol$\cdot$kg$^{-1}$"
     )
     plt.tight_layout()
     if figure_fname is not None:
-- 
2.43.0


From 5152f4ef8dd79cef2a6b5ddbd8b4c4f47ea774a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 30/39] fix: plot the alkalinity offset of a dataset that was
 solved but not calibrated

---
 calkulate/plot/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/plot/__init__.py b/calkulate/plot/__init__.py
index 6d05783..1d03d54 100644
--- a/calkulate/plot/__init__.py
+++ b/calkulate/plot/__init__.py
@@ -83,8 +83,8 @@ def alkalinity_offset(
         G = data.reference_good.values
     else:
         G = np.full(np.size(xdata), True)
-    if show_batches:
-        batches = dataset.get_batches(data)
+    if show_batches and "analysis_batch" in data:
+        batches = data.groupby("analysis_batch").size()
         clr = np.full(np.size(xdata), -1)
         for b, batch in enumerate(batches.index):
             B = (data.analysis_batch == batch).to_numpy()
-- 
2.43.0


From 8f21d371e58a6a493eef7234f7dfa5a6ae89c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 31/39] fix: target pH range on the pH plot when the limits are
 missing in the dataset row

---
 calkulate/plot/titration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/calkulate/plot/titration.py b/calkulate/plot/titration.py
index 891332b..7aa3833 100644
--- a/calkulate/plot/titration.py
+++ b/calkulate/plot/titration.py
@@ -1,4 +1,5 @@
 import numpy as np
+import pandas as pd
 from matplotlib import pyplot as plt
 from scipy.interpolate import pchip_interpolate
 
@@ -94,8 +95,10 @@ def pH(tt, ax=None, show_gran=True):
         label="Final, used",
         **final_styler.scatter(),
     )
-    pH_min = tt.pH_min if hasattr(tt, "pH_min") else 3
-    pH_max = tt.pH_max if hasattr(tt, "pH_max") else 4
+    pH_min = tt.row.get("pH_min")
+    pH_min = 3 if pd.isnull(pH_min) else pH_min
+    pH_max = tt.row.get("pH_max")
+    pH_max = 4 if pd.isnull(pH_max) else pH_max
     xlim = ax.get_xlim()
     ax.fill_between(
         xlim,
-- 
2.43.0


From 994373a969257d488c73770ffd4146d43819c764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 32/39] fix: alkalinity plot title shows the same standard
 deviation as the results

---
 calkulate/plot/titration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/plot/titration.py b/calkulate/plot/titration.py
index 7aa3833..005d3e6 100644
--- a/calkulate/plot/titration.py
+++ b/calkulate/plot/titration.py
@@ -210,7 +210,7 @@ def alkalinity(tt, ax=None):
     ax.set_title(
         "Total alkalinity = {:.1f} ± {:.1f} μmol/kg-sw; $n$ = {}".format(
             tt.alkalinity,
-            ttt.alkalinity_estimate[ttt.used].std() * 1e6,
+            ttt.alkalinity_estimate[ttt.used].std(ddof=0) * 1e6,
             ttt.used.sum(),
         )
     )
-- 
2.43.0


From 2e5ef9470ad0024e5e2f65a06a6d9eb97ced9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 33/39] fix: do not report the old-style read_dat_method option
 as ignored when it is used

---
 calkulate/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index e6ec972..0dbd11f 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -274,7 +274,11 @@ def solve(ds, verbose=False, **kwargs):
     # Check for bad kwargs, but don't break on them
     kwargs_ignored = []
     for k in _backcompat(kwargs.copy(), []):
-        if k not in files.keys_calibrate | {"pH_range", "read_dat_kwargs"}:
+        if k not in files.keys_calibrate | {
+            "pH_range",
+            "read_dat_kwargs",
+            "read_dat_method",
+        }:
             kwargs_ignored.append(k)
     if len(kwargs_ignored) > 0:
         warn(
-- 
2.43.0


From e4efbbdf2397bbea2bcb27e0df748d028ad23c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:18 +0000
Subject: [PATCH 34/39] fix: a certified value that is not a number no longer
 stops the whole table

---
 calkulate/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 0dbd11f..d82e691 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -293,7 +293,9 @@ def solve(ds, verbose=False, **kwargs):
     for k, v in solved_rows.items():
         ds[k] = v
     if "alkalinity_certified" in ds:
-        ds["alkalinity_offset"] = ds.alkalinity - ds.alkalinity_certified
+        ds["alkalinity_offset"] = ds.alkalinity - pd.to_numeric(
+            ds.alkalinity_certified, errors="coerce"
+        )
     print("Calkulate: solving complete!")
     return ds
 
-- 
2.43.0


From 3df4ae5377db4a39ee7fcfac55664d6d4c4dff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:27 +0000
Subject: [PATCH 35/39] fix: plots tell good from bad references also when
 flags are 0/1 or partly missing

---
 calkulate/plot/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/calkulate/plot/__init__.py b/calkulate/plot/__init__.py
index 1d03d54..0320479 100644
--- a/calkulate/plot/__init__.py
+++ b/calkulate/plot/__init__.py
@@ -24,7 +24,8 @@ def titrant_molinity(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.values
+        # May also be 0 / 1, and missing for samples
+        G = data.reference_good.eq(True).to_numpy(dtype=bool, na_value=False)
     else:
         G = np.full(np.size(xdata), True)
     # Draw the figure
@@ -80,7 +81,8 @@ def alkalinity_offset(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.values
+        # May also be 0 / 1, and missing for samples
+        G = data.reference_good.eq(True).to_numpy(dtype=bool, na_value=False)
     else:
         G = np.full(np.size(xdata), True)
     if show_batches and "analysis_batch" in data:
-- 
2.43.0


From 6e5e64fb3dbbf3bc45060b7af88880d38713a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:27 +0000
Subject: [PATCH 36/39] fix: reference_good given as 0/1 with missing values no
 longer stops the calibration

---
 calkulate/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index d82e691..bab5675 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -103,7 +103,8 @@ def calibrate_row(row, verbose=False, **kwargs):
 def get_group_calibration(ds_group):
     """Get mean titrant molinity and statistics for each analysis_batch group."""
     titrant_molinities = ds_group.titrant_molinity_here[
-        ds_group.reference_good & ~np.isnan(ds_group.titrant_molinity_here)
+        ds_group.reference_good.eq(True)  # may be 0 / 1 with missing values
+        & ~np.isnan(ds_group.titrant_molinity_here)
     ]
     return pd.Series(
         {
-- 
2.43.0


From cbccdabac5edb9e80d73139700a92c66001ca9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:58 +0000
Subject: [PATCH 37/39] fix: a missing file_good value no longer stops the
 whole table

---
 calkulate/dataset.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index bab5675..b693cc0 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -74,13 +74,18 @@ def _backcompat(kwargs, row):
     return kwargs
 
 
+def _is_good(row):
+    """Whether to use the file, also if `file_good` is missing for this row."""
+    return pd.isnull(row.file_good) or row.file_good
+
+
 def calibrate_row(row, verbose=False, **kwargs):
     """Calibrate `titrant_molinity` for a single row of (i.e., a single
     titration in) a dataset.
     """
     # Initialise output
     titrant_molinity_here = np.nan
-    if pd.notnull(row.alkalinity_certified) and row.file_good:
+    if pd.notnull(row.alkalinity_certified) and _is_good(row):
         if verbose:
             print(f"Calibrating {row.file_name}...")
         try:
@@ -233,7 +238,7 @@ def solve_row(row, verbose=False, **kwargs):
             "temperature_init": np.nan,
         }
     )
-    if pd.notnull(row.titrant_molinity) and row.file_good:
+    if pd.notnull(row.titrant_molinity) and _is_good(row):
         if verbose:
             print(f"Solving {row.file_name}...")
         try:
-- 
2.43.0


From 4259ae8dd2775e94fb62d5b1f9d304649f53e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:52 +0000
Subject: [PATCH 38/39] fix: EMF data without any point in the pH range no
 longer give the first guess as alkalinity

---
 calkulate/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 42b06e6..c628f3e 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -691,7 +691,10 @@ def solve_emf(
         totals,
         k_constants,
     )
-    if double:
+    if not used.any():
+        # Then the values above are still the initial guesses
+        sr = sr._replace(alkalinity=np.nan)
+    elif double:
         # Solve again, but this time starting from the previously solved-for
         # alkalinity and emf0, so that the used data points more accurately
         # obey the pH_min and pH_max values
@@ -909,7 +912,8 @@ def _lsqfun_calibrate_emf(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    return sr.alkalinity - alkalinity_certified
+    # Not `sr.alkalinity` because it's missing if no data points were used
+    return sr.opt_result["x"][0] * 1e6 - alkalinity_certified
 
 
 def calibrate_emf(
-- 
2.43.0


From b6122f0b76532402f14ca0cf02ec2b635d9220a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:14 +0000
Subject: [PATCH 39/39] fix: print a Titration whose row has no file_path value

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index c06f45d..94ecec3 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -226,14 +226,14 @@ class Titration:
             raise AttributeError(key)
 
     def __str__(self):
-        if "file_path" in self.row:
+        if pd.notnull(self.row.get("file_path")):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
             f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
-        if "file_path" in self.row:
+        if pd.notnull(self.row.get("file_path")):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
             f = self.row.file_name
-- 
2.43.0

