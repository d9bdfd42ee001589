From 3ac561a05a0f1fa5976c95ec8b6b0ab695db182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:29 +0000
Subject: [PATCH 01/43] fix: accept the mapped argument as a keyword in
 use_map_blocks_on

blackbody_rad2temp(wavelength=..., radiance=...) raised IndexError.
---
 pyspectral/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 14a9dca..8de779c 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -8,7 +8,7 @@ import sys
 import tarfile
 import warnings
 from functools import wraps
-from inspect import getfullargspec
+from inspect import getfullargspec, signature
 from pathlib import Path
 
 import numpy as np
@@ -679,6 +679,9 @@ def use_map_blocks_on(argument_to_run_map_blocks_on):
 
         @wraps(f)
         def wrapper(*args, **kwargs):
+            # the mapped argument may have been passed as a keyword argument
+            bound_args = signature(f).bind(*args, **kwargs)
+            args, kwargs = bound_args.args, bound_args.kwargs
             array = args[argument_index]
             chunks = getattr(array, "chunks", None)
             if chunks is None:
-- 
2.43.0


From d528d3d6fb5e9a07ccff78b801836a58f4824b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:29 +0000
Subject: [PATCH 02/43] fix: inverse Planck function for plain Python scalars
 and integer radiances

Scalars (documented as accepted) raised AttributeError, and integer radiances
truncated the wavelength to zero giving NaN temperatures.
---
 pyspectral/blackbody.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspectral/blackbody.py b/pyspectral/blackbody.py
index cbfcfbd..806d33e 100644
--- a/pyspectral/blackbody.py
+++ b/pyspectral/blackbody.py
@@ -35,9 +35,11 @@ def blackbody_rad2temp(wavelength, radiance):
         The derived temperature in Kelvin.
 
     """
-    if getattr(wavelength, "dtype", None) != radiance.dtype:
+    radiance_dtype = getattr(radiance, "dtype", None)
+    if (radiance_dtype is not None and np.issubdtype(radiance_dtype, np.floating) and
+            getattr(wavelength, "dtype", None) != radiance_dtype):
         # avoid a wavelength numpy scalar upcasting radiances (ex. 32-bit to 64-bit float)
-        wavelength = radiance.dtype.type(wavelength)
+        wavelength = radiance_dtype.type(wavelength)
     with np.errstate(divide='ignore', invalid='ignore'):
         return PLANCK_C1 / (wavelength * np.log(PLANCK_C2 / (radiance * wavelength**5) + 1.0))
 
-- 
2.43.0


From ca6d84fd6eb812ab4f390f641a3cdcdb30706fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:13 +0000
Subject: [PATCH 03/43] fix: never leave a partially extracted archive looking
 up-to-date

The version file could be extracted before the data files, so that an
interrupted extraction, or a truncated archive, was never repaired.
---
 pyspectral/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 8de779c..99a8c88 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -428,6 +428,8 @@ def _get_aerosol_types(aerosol_types, aerosol_type):
     return aerosol_types
 
 
+_VERSION_FILENAMES = {RSR_DATA_VERSION_FILENAME} | {lut["filename"] for lut in ATM_CORRECTION_LUT_VERSION.values()}
+
 HEADERS = {
     "User-Agent": "pyspectral (+https://github.com/pytroll/pyspectral)",
     "Accept": "*/*",
@@ -456,7 +458,15 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
 
     tar_kwargs = {} if sys.version_info < (3, 12) else {"filter": "data"}
     with tarfile.open(local_pathname) as tar:
-        tar.extractall(extract_dir, **tar_kwargs)  # type: ignore
+        # reading all the member headers fails if the archive is incomplete
+        members = tar.getmembers()
+        # a version file marks the directory as up-to-date, so it must only be there once everything else is
+        version_members = [mbr for mbr in members if os.path.normpath(mbr.name) in _VERSION_FILENAMES]
+        for member in version_members:
+            (extract_dir / os.path.normpath(member.name)).unlink(missing_ok=True)
+        tar.extractall(extract_dir, [mbr for mbr in members if mbr not in version_members],
+                       **tar_kwargs)  # type: ignore
+        tar.extractall(extract_dir, version_members, **tar_kwargs)  # type: ignore
 
     os.remove(local_pathname)
 
-- 
2.43.0


From d7570c7b0f753fa821c1952dc1bfa381b223620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:13 +0000
Subject: [PATCH 04/43] fix: create the destination directory when downloading
 the RSR data

download_rsr(dest_dir=...) failed for a directory that did not exist yet,
unlike download_luts.
---
 pyspectral/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 99a8c88..996b253 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -380,6 +380,7 @@ def download_rsr(dest_dir: str | Path | None = None, dry_run: bool = False) -> N
     if dry_run:
         return
 
+    dest_path.mkdir(exist_ok=True, parents=True)
     _download_tarball_and_extract(HTTP_PYSPECTRAL_RSR, filename, dest_path)
 
 
-- 
2.43.0


From 9dc9a59e26e8290a1ed51c6cf178d71b4b8dd262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:53 +0000
Subject: [PATCH 05/43] fix: keep the central wavelength when converting
 responses to wavenumbers

In wavenumber space bands could not be looked up by wavelength, radiances not
converted back to temperatures and the 3.x reflectance calculator not be
created (KeyError: 'central_wavelength').
---
 pyspectral/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 996b253..5114b60 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -190,6 +190,9 @@ def _detector2wavenumber(det_rsr):
     for key in det_rsr.keys():
         _wavelength2wavenumber(det_rsr, key, det_wavenumbers)
         _collect_responses(det_rsr, key, det_wavenumbers)
+    if "central_wavelength" in det_rsr:
+        # still needed to identify the band by its wavelength and to convert radiances
+        det_wavenumbers["central_wavelength"] = det_rsr["central_wavelength"]
 
     return det_wavenumbers
 
-- 
2.43.0


From 4ac8124abd9b9137afc2eed063c4fcd4fc0d95fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:58 +0000
Subject: [PATCH 06/43] fix: response integral after conversion to wavenumbers

integral() raised KeyError: 'wavelength' once convert() had been called.
---
 pyspectral/rsr_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rsr_reader.py b/pyspectral/rsr_reader.py
index 7f98def..6b9dad2 100644
--- a/pyspectral/rsr_reader.py
+++ b/pyspectral/rsr_reader.py
@@ -218,7 +218,7 @@ class RelativeSpectralResponse(_RSRDataBase):
 
         intg = {}
         for detector_name in self.rsr[band_name].keys():
-            wvl = self.rsr[band_name][detector_name]['wavelength']
+            wvl = self.rsr[band_name][detector_name][self._wavespace]
             resp = self.rsr[band_name][detector_name]['response']
             intg[detector_name] = trapezoid(resp, wvl)
         return intg
-- 
2.43.0


From 868acd385c8a5f4592ca2be9952524d10eb5356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:20 +0000
Subject: [PATCH 07/43] fix: write the tb to radiance look-up table atomically

A process killed while writing the table, or another one reading it at that
moment, ended up with an unreadable or incomplete file for ever after.
---
 pyspectral/radiance_tb_conversion.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 97a925e..48053fb 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -5,7 +5,9 @@ various satellite sensors
 """
 
 import logging
+import os
 from numbers import Number
+from uuid import uuid4
 
 import numpy as np
 from scipy.integrate import trapezoid
@@ -211,7 +213,18 @@ class RadTbConverter(object):
         tb_ = np.arange(TB_MIN, TB_MAX, self.tb_resolution)
         retv = self.tb2radiance(tb_, normalized=normalized)
         rad = retv['radiance']
-        np.savez(filepath, tb=tb_, radiance=rad)
+        filepath = os.fspath(filepath)
+        if not filepath.endswith('.npz'):
+            filepath = filepath + '.npz'
+        # Never expose a partly written file to other (or later) processes using the same file
+        tmp_path = '{0}.{1}.tmp'.format(filepath, uuid4().hex)
+        try:
+            with open(tmp_path, 'wb') as handle:
+                np.savez(handle, tb=tb_, radiance=rad)
+            os.replace(tmp_path, filepath)
+        finally:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
 
     @staticmethod
     def read_tb2rad_lut(filepath):
-- 
2.43.0


From b77ef0f1d8e69258cc7b1935c7c68fcdfc1689a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:25 +0000
Subject: [PATCH 08/43] fix: separate tb to radiance look-up tables for other
 detectors and wave spaces

The automatic file name only told platform, instrument and band apart, so a
calculator for another detector or wave space used the wrong table.
---
 pyspectral/near_infrared_reflectance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index ef33ba0..c36906e 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -96,6 +96,11 @@ class Calculator(RadTbConverter):
                       "Will generate filename automatically")
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
                 self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())
+            # The table depends on these as well, don't mix them up with the default ones:
+            if self.detector != "det-1":
+                lutname = lutname + "_" + self.detector.lower()
+            if self.wavespace != WAVE_LENGTH:
+                lutname = lutname + "_" + self.wavespace
             self.lutfile = os.path.join(tb2rad_dir, lutname + ".npz")
 
     def _lutfile_from_config(self, options, tb2rad_dir):
-- 
2.43.0


From a33c292960892e43e5a60a61a04dd18b939bf323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:39 +0000
Subject: [PATCH 09/43] fix: store the wavelengths, not the responses, when
 converting RSR data to HDF5

The 'wavelength' dataset written by convert2hdf5 was a copy of the response.
---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 5114b60..bbc6134 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -330,7 +330,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     dset = grp.create_dataset("response", arr.shape, dtype="f")
     dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr["wavelength"], scale)
 
 
 def _save_wavelengths(grp, arr, scale):
@@ -353,7 +353,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr[detectors[0]]["wavelength"], scale)
 
 
 def download_rsr(dest_dir: str | Path | None = None, dry_run: bool = False) -> None:
-- 
2.43.0


From 76d0f40fa722871c1b1a6ffda0a869c1bd58ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:43 +0000
Subject: [PATCH 10/43] fix: write converted RSR data to the file name the
 reader looks for

Instrument names with a dash or upper case letters (e.g. mersi-1, msu-gs) were
kept as they are in the file name, but are normalised when reading.
---
 pyspectral/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index bbc6134..780d19b 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -290,7 +290,8 @@ def convert2hdf5(ClassIn, platform_name, bandnames, scale=1e-06, detectors=None)
     import h5py
 
     instruments = [ClassIn(bandnames[i], platform_name) for i in range(len(bandnames))]
-    instr_name = instruments[0].instrument.replace("/", "")
+    # the same file name as the one looked for when reading the data by platform and instrument
+    instr_name = instruments[0].instrument.lower().replace("/", "").replace("-", "")
     filename = os.path.join(instruments[0].output_dir,
                             "rsr_{0}_{1}.h5".format(instr_name,
                                                     platform_name))
-- 
2.43.0


From 0b1b245131047f81125153259463da3c58778d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:47 +0000
Subject: [PATCH 11/43] fix: reading RSR files without sensor name for
 platforms with several instruments

The instrument became a list, and looking up any band alias raised TypeError.
---
 pyspectral/rsr_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/rsr_reader.py b/pyspectral/rsr_reader.py
index 6b9dad2..718e28d 100644
--- a/pyspectral/rsr_reader.py
+++ b/pyspectral/rsr_reader.py
@@ -299,6 +299,8 @@ def _get_instrument(h5f, platform_name):
     except KeyError:
         LOG.warning("No sensor name specified in HDF5 file")
         instrument = INSTRUMENTS.get(platform_name)
+        if isinstance(instrument, list):
+            instrument = instrument[0]
     return instrument
 
 
-- 
2.43.0


From ba9243940a23b8dcba09d73dc809c02c859aee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:38 +0000
Subject: [PATCH 12/43] fix: accept adjusted instrument names on platforms with
 several instruments

'mersi1' (which is what 'mersi-1' is adjusted to) was replaced by 'virr' on
FY-3A, FY-3B and FY-3C.
---
 pyspectral/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 780d19b..9625b44 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -291,7 +291,7 @@ def convert2hdf5(ClassIn, platform_name, bandnames, scale=1e-06, detectors=None)
 
     instruments = [ClassIn(bandnames[i], platform_name) for i in range(len(bandnames))]
     # the same file name as the one looked for when reading the data by platform and instrument
-    instr_name = instruments[0].instrument.lower().replace("/", "").replace("-", "")
+    instr_name = _clean_inst_name(instruments[0].instrument)
     filename = os.path.join(instruments[0].output_dir,
                             "rsr_{0}_{1}.h5".format(instr_name,
                                                     platform_name))
@@ -652,7 +652,8 @@ def check_and_adjust_instrument_name(platform_name, instrument):
     instr = INSTRUMENTS.get(platform_name, instrument.lower())
     if isinstance(instr, list):
         for inst in instr:
-            goodinst = are_instruments_identical(inst, instrument.lower())
+            goodinst = (are_instruments_identical(inst, instrument.lower())
+                        or _clean_inst_name(inst) == _clean_inst_name(instrument))
             if goodinst:
                 break
     else:
@@ -663,6 +664,11 @@ def check_and_adjust_instrument_name(platform_name, instrument):
         LOG.warning("Inconsistent instrument/satellite input - instrument set to %s",
                     instrument)
 
+    return _clean_inst_name(instrument)
+
+
+def _clean_inst_name(instrument):
+    """Get the instrument name as used in the file names."""
     return instrument.lower().replace("/", "").replace("-", "")
 
 
-- 
2.43.0


From bbb77723a798eca8228f95887c10324b7da1d83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:32 +0000
Subject: [PATCH 13/43] fix: tb to radiance look-up for temperatures far
 outside the table and integer input

---
 pyspectral/radiance_tb_conversion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 48053fb..f806478 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -180,11 +180,14 @@ class RadTbConverter(object):
             scale = 1.0
 
         if lut:
-            lut_radiance = lut['radiance'].astype(tb_.dtype)
-            ntb = (tb_ * self.tb_scale).astype('int16')
+            lut_radiance = lut['radiance']
+            if np.issubdtype(tb_.dtype, np.floating):
+                lut_radiance = lut_radiance.astype(tb_.dtype)
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
             bounds = 0, lut_radiance.shape[0] - 1
+            # Limit to the range of the table before the integer conversion, to avoid integer overflows
+            ntb = (tb_ * self.tb_scale).clip(start + bounds[0], start + bounds[1]).astype('int32')
             index = (ntb - start).clip(bounds[0], bounds[1])
             try:
                 retv['radiance'] = index.map_blocks(self._getitem, lut_radiance, dtype=lut_radiance.dtype)
-- 
2.43.0


From 6e713c061b612fe8c790caafb994c097b80e9355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:32 +0000
Subject: [PATCH 14/43] fix: SEVIRI coefficients of the water vapour bands
 under their translated names

---
 pyspectral/radiance_tb_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index f806478..365352e 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -63,6 +63,9 @@ SEVIRI = {'IR3.9': {'Meteosat-8': [2567.330, 0.9956, 3.410],
                      'Meteosat-9': [751.792, 0.9981, 0.561],
                      },
           }
+# The water vapour bands go under these names in the band name translations:
+SEVIRI['IR6.2'] = SEVIRI['WV6.2']
+SEVIRI['IR7.3'] = SEVIRI['WV7.3']
 
 
 class RadTbConverter(object):
-- 
2.43.0


From 9d8acf885241a9fca249ebb287db77ac206755c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:18 +0000
Subject: [PATCH 15/43] fix: brightness temperatures from radiances per
 wavenumber

---
 pyspectral/radiance_tb_conversion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 365352e..c194ae2 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -12,7 +12,7 @@ from uuid import uuid4
 import numpy as np
 from scipy.integrate import trapezoid
 
-from pyspectral.blackbody import C_SPEED, H_PLANCK, K_BOLTZMANN, blackbody, blackbody_wn
+from pyspectral.blackbody import C_SPEED, H_PLANCK, K_BOLTZMANN, blackbody, blackbody_wn, blackbody_wn_rad2temp
 from pyspectral.rsr_reader import RelativeSpectralResponse
 from pyspectral.utils import BANDNAMES, WAVE_LENGTH, WAVE_NUMBER, convert2wavenumber, get_bandname_from_wavelength
 
@@ -244,7 +244,10 @@ class RadTbConverter(object):
         rad:
             Radiance in SI units
         """
-        return radiance2tb(rad, self.rsr[self.bandname][self.detector]['central_wavelength'] * 1e-6)
+        wavelength = self.rsr[self.bandname][self.detector]['central_wavelength'] * 1e-6
+        if self.wavespace == WAVE_NUMBER:
+            return blackbody_wn_rad2temp(1.0 / wavelength, rad)
+        return radiance2tb(rad, wavelength)
 
 
 def radiance2tb(rad, wavelength):
-- 
2.43.0


From 92598ddbd64a778e4784ad2e8f9bdfdc464390cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:23 +0000
Subject: [PATCH 16/43] fix: derive the in-band solar flux for the detector of
 the calculator

---
 pyspectral/near_infrared_reflectance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index c36906e..256798c 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -161,7 +161,7 @@ class Calculator(RadTbConverter):
         solar_spectrum = \
             SolarIrradianceSpectrum(dlambda=0.0005,
                                     wavespace=self.wavespace)
-        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname])
+        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname][self.detector])
 
     def emissive_part_3x(self, tb=True):
         """Get the emissive part of the 3.x band."""
-- 
2.43.0


From 29685fc3bc5f66637836434155024984a47a7979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:27 +0000
Subject: [PATCH 17/43] fix: unit of the derived in-band solar flux in
 wavenumber space

---
 pyspectral/near_infrared_reflectance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 256798c..f10877f 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -19,7 +19,7 @@ except ImportError:
 from pyspectral.config import get_config
 from pyspectral.radiance_tb_conversion import RadTbConverter
 from pyspectral.solar import SolarIrradianceSpectrum
-from pyspectral.utils import BANDNAMES, WAVE_LENGTH, get_bandname_from_wavelength
+from pyspectral.utils import BANDNAMES, WAVE_LENGTH, WAVE_NUMBER, get_bandname_from_wavelength
 
 LOG = logging.getLogger(__name__)
 
@@ -162,6 +162,9 @@ class Calculator(RadTbConverter):
             SolarIrradianceSpectrum(dlambda=0.0005,
                                     wavespace=self.wavespace)
         self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname][self.detector])
+        if self.wavespace == WAVE_NUMBER:
+            # The flux comes in mW/m^2 and the radiances in W/m^2 sr^-1
+            self.solar_flux = self.solar_flux * 1e-3
 
     def emissive_part_3x(self, tb=True):
         """Get the emissive part of the 3.x band."""
-- 
2.43.0


From 51b036c13926c4a3b30ac0c4badbf3a166e2251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:31 +0000
Subject: [PATCH 18/43] fix: no radiance from the look-up table for missing
 temperatures

---
 pyspectral/radiance_tb_conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index c194ae2..80b90f2 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -196,6 +196,8 @@ class RadTbConverter(object):
                 retv['radiance'] = index.map_blocks(self._getitem, lut_radiance, dtype=lut_radiance.dtype)
             except AttributeError:
                 retv['radiance'] = lut_radiance[index]
+            # There is no radiance where the temperature is missing
+            retv['radiance'] = np.where(np.isnan(tb_), lut_radiance.dtype.type(np.nan), retv['radiance'])
             try:
                 retv['radiance'] = retv['radiance'].item()
             except (ValueError, AttributeError):
-- 
2.43.0


From e64acbe9bc3ee28d5e41b77cb622062677915648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:15 +0000
Subject: [PATCH 19/43] fix: 3.x micron reflectance of masked pixels and for
 integer input

---
 pyspectral/near_infrared_reflectance.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index f10877f..c0a3bdb 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -13,8 +13,10 @@ import numpy as np
 
 try:
     from dask.array import asanyarray, isnan, logical_or, where
+    from dask.array.ma import filled
 except ImportError:
     from numpy import where, logical_or, asanyarray, isnan
+    from numpy.ma import filled
 
 from pyspectral.config import get_config
 from pyspectral.radiance_tb_conversion import RadTbConverter
@@ -210,8 +212,8 @@ class Calculator(RadTbConverter):
         if not self.rsr:
             raise NotImplementedError("Reflectance calculations without rsr not yet supported!")
 
-        tb_nir = get_as_array(tb_near_ir)
-        tb_therm = get_as_array(tb_thermal)
+        tb_nir = get_as_float_array(tb_near_ir)
+        tb_therm = get_as_float_array(tb_thermal)
         if tb_therm.shape != tb_nir.shape:
             raise ValueError(f"Dimensions do not match! {tb_therm.shape} and {tb_nir.shape}")
 
@@ -223,7 +225,7 @@ class Calculator(RadTbConverter):
         if hasattr(tb_near_ir, "mask") or hasattr(tb_thermal, "mask"):
             is_masked = True
 
-        sun_zenith = get_as_array(sun_zenith)
+        sun_zenith = get_as_float_array(sun_zenith)
         tb_ir_co2 = kwargs.get("tb_ir_co2")
         lut = kwargs.get("lut", self.lut)
 
@@ -231,7 +233,7 @@ class Calculator(RadTbConverter):
         tbco2 = None
         if tb_ir_co2 is not None:
             co2corr = True
-            tbco2 = get_as_array(tb_ir_co2)
+            tbco2 = get_as_float_array(tb_ir_co2)
 
         # Assume rsr is in microns!!!
         # FIXME!
@@ -299,3 +301,15 @@ def get_as_array(variable):
         return asanyarray([variable, ])
 
     return asanyarray(variable)
+
+
+def get_as_float_array(variable):
+    """Return variable as a Dask or Numpy array of floating point numbers.
+
+    Missing (masked) data are set to NaN.
+    """
+    array = get_as_array(variable)
+    if not np.issubdtype(array.dtype, np.floating):
+        array = array.astype(np.float64)
+
+    return filled(array, np.nan)
-- 
2.43.0


From fc818cebbdb242f58e67d202e303d3e8dbd2dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:31 +0000
Subject: [PATCH 20/43] fix: Rayleigh correction of numpy arrays outside the
 wavelength range without red band

---
 pyspectral/rayleigh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index caa585e..39394ed 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -237,7 +237,7 @@ class Rayleigh(RayleighConfigBaseClass):
                                              chunks=getattr(res, "chunks", None))
 
         res = np.clip(res, 0, 100)
-        if compute:
+        if compute and isinstance(res, da.Array):
             res = res.compute()
         return res
 
-- 
2.43.0


From eba7dd01cb49f8bfaf8cfc88bfe7a88120d64865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:34 +0000
Subject: [PATCH 21/43] fix: Rayleigh correction for integer angles or red band

---
 pyspectral/rayleigh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index 39394ed..5a37612 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -211,6 +211,8 @@ class Rayleigh(RayleighConfigBaseClass):
 
         wvl, band_name = self._get_effective_wavelength_and_band_name(band_name_or_wavelength)
         repr_arr = sun_zenith if redband is None else redband
+        if not np.issubdtype(repr_arr.dtype, np.floating):
+            repr_arr = repr_arr.astype(np.float64)
         try:
             rayleigh_refl = _get_wavelength_adjusted_lut_rayleigh_reflectance(
                 self.reflectance_lut_filename, wvl)
-- 
2.43.0


From dc5b030770dca69b75f97475f8785d18654d7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:38 +0000
Subject: [PATCH 22/43] fix: Rayleigh correction for differently chunked arrays

---
 pyspectral/rayleigh.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index 5a37612..b8067a0 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -41,6 +41,14 @@ def _map_blocks_or_direct_call(func, *args, **kwargs):
     return da.map_blocks(func, *args, **kwargs)
 
 
+def _get_equally_chunked(*arrays):
+    """Chunk the arrays like the first dask array among them, if there is any."""
+    chunks = next((arr.chunks for arr in arrays if da is not None and isinstance(arr, da.Array)), None)
+    if chunks is None:
+        return arrays
+    return tuple(arr if arr is None else da.asarray(arr).rechunk(chunks) for arr in arrays)
+
+
 def _clip_angles_inside_coordinate_range(zenith_angle, zenith_secant_max):
     """Clipping solar- or satellite zenith angles to be inside the allowed coordinate range.
 
@@ -208,6 +216,7 @@ class Rayleigh(RayleighConfigBaseClass):
         # if the user gave us non-dask arrays we'll use the dask
         # version of the algorithm but return numpy arrays back
         compute = da is not None and not isinstance(sun_zenith, da.Array)
+        sun_zenith, sat_zenith, azidiff, redband = _get_equally_chunked(sun_zenith, sat_zenith, azidiff, redband)
 
         wvl, band_name = self._get_effective_wavelength_and_band_name(band_name_or_wavelength)
         repr_arr = sun_zenith if redband is None else redband
-- 
2.43.0


From d2daa8cb3a54c5e1dbc1ecc16abd60d5e66f933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:58 +0000
Subject: [PATCH 23/43] fix: viewing angle correction of plain numpy arrays and
 any number of dimensions

---
 pyspectral/atm_correction_ir.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index c19df0e..2836c3b 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -121,11 +121,11 @@ def viewzen_corr(data, view_zen):
                                       data_tau_delta, data))
         return dask_data
     # expect numpy types otherwise
-    y0, x0 = np.ma.where(view_zen == 0)
-    data[y0, x0] += tau0(data[y0, x0])
+    nadir = np.ma.filled(view_zen == 0, False)
+    data[nadir] += tau0(data[nadir])
 
-    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~data.mask))
-    data[y, x] += tau(data[y, x]) * delta(view_zen[y, x])
+    slant = np.ma.filled((view_zen > 0) & (view_zen < 90), False) & ~np.ma.getmaskarray(data)
+    data[slant] += tau(data[slant]) * delta(view_zen[slant])
     return data
 
 
-- 
2.43.0


From 2be9b7f3294b1f86936895e1d20b8e3a351c50cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:07 +0000
Subject: [PATCH 24/43] fix: keep the mask in the viewing angle correction of
 chunked arrays

---
 pyspectral/atm_correction_ir.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index 2836c3b..10a2712 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -114,12 +114,11 @@ def viewzen_corr(data, view_zen):
     is_dask_data = hasattr(data, 'compute') or hasattr(view_zen, 'compute')
 
     if is_dask_data:
-        data_tau0 = data + tau0(data)
-        data_tau_delta = data + (tau(data) * delta(view_zen))
-        dask_data = da.where(view_zen == 0, data_tau0,
-                             da.where((view_zen > 0) & (view_zen < 90),
-                                      data_tau_delta, data))
-        return dask_data
+        correction = da.where(view_zen == 0, tau0(data),
+                              da.where((view_zen > 0) & (view_zen < 90),
+                                       tau(data) * delta(view_zen), 0))
+        # adding (in contrast to selecting) keeps the mask of the data
+        return correction + data
     # expect numpy types otherwise
     nadir = np.ma.filled(view_zen == 0, False)
     data[nadir] += tau0(data[nadir])
-- 
2.43.0


From 356d0501c7e20a79e19a837fa0036b113640f38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:14 +0000
Subject: [PATCH 25/43] fix: accept configuration files without any settings

---
 pyspectral/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/config.py b/pyspectral/config.py
index 1f646b4..004229e 100644
--- a/pyspectral/config.py
+++ b/pyspectral/config.py
@@ -46,7 +46,8 @@ def get_config(config_file: str | Path | None = None) -> dict:
     config: dict[str, Any] = {}
     with open(config_file, 'r') as fp_:
         loaded_config_content = yaml.load(fp_, Loader=UnsafeLoader)
-    config = recursive_dict_update(config, loaded_config_content)
+    # a file without any settings (empty or comments only) loads as None
+    config = recursive_dict_update(config, loaded_config_content or {})
 
     app_dirs = AppDirs('pyspectral', 'pytroll')
     user_datadir = app_dirs.user_data_dir
-- 
2.43.0


From 4d71827567dd6261805bf4c0c857e1e34c2bfd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:21 +0000
Subject: [PATCH 26/43] fix: logging to the console again after it was turned
 off

---
 pyspectral/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 9625b44..b90628c 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -520,7 +520,10 @@ class NullHandler(logging.Handler):
 
 def logging_off():
     """Turn logging off."""
+    global _is_logging_on
+
     logging.getLogger("").handlers = [NullHandler()]
+    _is_logging_on = False
 
 
 def get_logger(name):
-- 
2.43.0


From 4d70ecf6bfe5bb3332baca107cf7f7d090913a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:15 +0000
Subject: [PATCH 27/43] fix: full width at half maximum of responses that do
 not peak at one

---
 pyspectral/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index b90628c..ab995ca 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -540,7 +540,7 @@ def get_fullwidth_halfmax(rsp, wvl):
     Ths FWHM is defined as the wavelength range over which the SRF is greater than half
     of the maximum response. Often, this is referred to as the bandwidth of a channel.
     """
-    half_max = 0.5
+    half_max = 0.5 * np.max(rsp)
     indices = np.where(rsp >= half_max)[0]
     if len(indices) < 2:
         raise ValueError("The FWHM cannot be computed.")
-- 
2.43.0


From d3042296db22448cec5d047995ac9a04474f14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:04 +0000
Subject: [PATCH 28/43] fix: fake Rayleigh LUTs in a directory given by a
 relative path

---
 pyspectral/testing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 46c7fc1..065c7bb 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -590,7 +590,8 @@ def _symlink_rayleigh_lut(link_path: Path) -> None:
 
     rayleigh_dir = link_path.parent.parent
     base_file = rayleigh_dir / BASE_RAYLEIGH_LUT_FILENAME
-    link_path.symlink_to(base_file)
+    # a relative target would be taken relative to the directory of the link
+    link_path.symlink_to(base_file.resolve())
 
 
 def _fake_rsr_info_factory(
-- 
2.43.0


From 3a5ae53f22a10e93e03e24e7df8d825d61a52792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:08 +0000
Subject: [PATCH 29/43] fix: create the tb to radiance directory of the mocked
 conversion

---
 pyspectral/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 065c7bb..a6d196b 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -169,7 +169,7 @@ def mock_tb_conversion(
         rsr_dir,
         **rsr_files_kwargs,
     )
-    with config_cm, rsr_files_cm as load_rsr:
+    with config_cm, init_tb_cache(tb2rad_dir), rsr_files_cm as load_rsr:
         yield load_rsr
 
     # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-- 
2.43.0


From e21b615c7b666b2efb87424a823549e7e59b5722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:33 +0000
Subject: [PATCH 30/43] fix: black-body radiance for integer wavenumbers

Integer arrays (or numpy scalars) of wavenumbers overflowed silently when
raised to the third power.
---
 pyspectral/blackbody.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspectral/blackbody.py b/pyspectral/blackbody.py
index 806d33e..403304e 100644
--- a/pyspectral/blackbody.py
+++ b/pyspectral/blackbody.py
@@ -41,7 +41,7 @@ def blackbody_rad2temp(wavelength, radiance):
         # avoid a wavelength numpy scalar upcasting radiances (ex. 32-bit to 64-bit float)
         wavelength = radiance_dtype.type(wavelength)
     with np.errstate(divide='ignore', invalid='ignore'):
-        return PLANCK_C1 / (wavelength * np.log(PLANCK_C2 / (radiance * wavelength**5) + 1.0))
+        return PLANCK_C1 / (wavelength * np.log(PLANCK_C2 / (radiance * wavelength**5.) + 1.0))
 
 
 @use_map_blocks_on("radiance")
@@ -57,7 +57,7 @@ def blackbody_wn_rad2temp(wavenumber, radiance):
 
     """
     with np.errstate(divide='ignore', invalid='ignore'):
-        return PLANCK_C1 * wavenumber / np.log((PLANCK_C2 * wavenumber**3) / radiance + 1.0)
+        return PLANCK_C1 * wavenumber / np.log((PLANCK_C2 * wavenumber**3.) / radiance + 1.0)
 
 
 def planck(wave, temperature, wavelength=True):
@@ -86,10 +86,10 @@ def planck(wave, temperature, wavelength=True):
             units[(wavelength is True) - 1]))
 
     if wavelength:
-        nom = PLANCK_C2 / wave ** 5
+        nom = PLANCK_C2 / wave ** 5.
         arg1 = PLANCK_C1 / wave
     else:
-        nom = PLANCK_C2 * wave ** 3
+        nom = PLANCK_C2 * wave ** 3.
         arg1 = PLANCK_C1 * wave
 
     with np.errstate(divide='ignore', invalid='ignore'):
-- 
2.43.0


From d8e73adfe58132645767a2271bedcbce0d4b8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:18 +0000
Subject: [PATCH 31/43] fix: read the columns of the raw response files by name

With names and unpack given, numpy's genfromtxt gives a list of columns, so
that the AMI, AVHRR, COCTS, MERSI-2 and VIRR readers failed on every file.
---
 rsr_convert_scripts/ami_reader.py | 1 -
 rsr_convert_scripts/avhrr_rsr.py  | 1 -
 rsr_convert_scripts/cocts_rsr.py  | 1 -
 rsr_convert_scripts/mersi2_rsr.py | 1 -
 rsr_convert_scripts/virr_rsr.py   | 1 -
 5 files changed, 5 deletions(-)

diff --git a/rsr_convert_scripts/ami_reader.py b/rsr_convert_scripts/ami_reader.py
index 8ed8e6b..7ad006c 100644
--- a/rsr_convert_scripts/ami_reader.py
+++ b/rsr_convert_scripts/ami_reader.py
@@ -58,7 +58,6 @@ class AmiRSR(InstrumentRSR):
     def _load(self, scale=10000.0):
         """Load the AMI RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavenumber',
                                     'response'],
                              skip_header=4)
diff --git a/rsr_convert_scripts/avhrr_rsr.py b/rsr_convert_scripts/avhrr_rsr.py
index 97f632d..573bf9c 100644
--- a/rsr_convert_scripts/avhrr_rsr.py
+++ b/rsr_convert_scripts/avhrr_rsr.py
@@ -52,7 +52,6 @@ class AvhrrRSR(InstrumentRSR):
     def _load(self, scale=1.0):
         """Load the AVHRR RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=1)
diff --git a/rsr_convert_scripts/cocts_rsr.py b/rsr_convert_scripts/cocts_rsr.py
index 40d854b..a676f88 100644
--- a/rsr_convert_scripts/cocts_rsr.py
+++ b/rsr_convert_scripts/cocts_rsr.py
@@ -50,7 +50,6 @@ class COCTS_RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength', 'ch1', 'ch2', 'ch3', 'ch4', 'ch5', 'ch6', 'ch7', 'ch8'],
                              skip_header=0)
 
diff --git a/rsr_convert_scripts/mersi2_rsr.py b/rsr_convert_scripts/mersi2_rsr.py
index c58597b..45bce1a 100644
--- a/rsr_convert_scripts/mersi2_rsr.py
+++ b/rsr_convert_scripts/mersi2_rsr.py
@@ -51,7 +51,6 @@ class Mersi2RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 5940660..4e7d7d6 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -49,7 +49,6 @@ class VirrRSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
-- 
2.43.0


From 85da1fb286064139acf6809218fc9a00c0659ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:18 +0000
Subject: [PATCH 32/43] fix: VIRR reader for platforms with several instruments

FY-3B and FY-3C also carry MERSI: their entry in the list of instruments is a list.
---
 rsr_convert_scripts/virr_rsr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 4e7d7d6..3c7f348 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -10,7 +10,6 @@ import os
 import numpy as np
 
 from pyspectral.raw_reader import InstrumentRSR
-from pyspectral.utils import INSTRUMENTS
 from pyspectral.utils import convert2hdf5 as tohdf5
 
 LOG = logging.getLogger(__name__)
@@ -28,7 +27,7 @@ class VirrRSR(InstrumentRSR):
         """Verify that file exists and can be read."""
         super(VirrRSR, self).__init__(bandname, platform_name, VIRR_BAND_NAMES[platform_name])
 
-        self.instrument = INSTRUMENTS.get(platform_name, 'virr')
+        self.instrument = 'virr'
         self._get_options_from_config()
         self._get_bandfilenames()
 
-- 
2.43.0


From a1933a55282a5f91a39350df5042547ccfbcf730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:18 +0000
Subject: [PATCH 33/43] fix: compare the wavelengths of the detectors when
 converting VIIRS and METimage

numpy's alltrue is gone, and arrays of different length cannot be compared
element by element.
---
 rsr_convert_scripts/metimage_rsr.py | 2 +-
 rsr_convert_scripts/viirs_rsr.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsr_convert_scripts/metimage_rsr.py b/rsr_convert_scripts/metimage_rsr.py
index 5052416..4fba01f 100644
--- a/rsr_convert_scripts/metimage_rsr.py
+++ b/rsr_convert_scripts/metimage_rsr.py
@@ -112,7 +112,7 @@ def generate_metimage_file(platform_name):
             wvl_is_constant = True
             for det in det_names[1:]:
                 det_wvl = np.unique(metimage.rsr[det]['wavelength'])
-                if not np.alltrue(wvl == det_wvl):
+                if not np.array_equal(wvl, det_wvl):
                     LOG.warning(
                         "Wavelngth arrays are not the same among detectors!")
                     wvl_is_constant = False
diff --git a/rsr_convert_scripts/viirs_rsr.py b/rsr_convert_scripts/viirs_rsr.py
index 9476572..6c0fe13 100644
--- a/rsr_convert_scripts/viirs_rsr.py
+++ b/rsr_convert_scripts/viirs_rsr.py
@@ -196,7 +196,7 @@ def create_viirs_rsr(platform_name):
             wvl_is_constant = True
             for det in det_names[1:]:
                 det_wvl = np.unique(viirs.rsr[det]['wavelength'])
-                if not np.alltrue(wvl == det_wvl):
+                if not np.array_equal(wvl, det_wvl):
                     LOG.warning(
                         "Wavelngth arrays are not the same among detectors!")
                     wvl_is_constant = False
-- 
2.43.0


From 8a7ca2902db91e7424b134d2851c62c4c895c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:18 +0000
Subject: [PATCH 34/43] fix: store the band names when converting the AHI
 responses

---
 rsr_convert_scripts/ahi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/ahi_reader.py b/rsr_convert_scripts/ahi_reader.py
index 73b4e11..7c05e27 100644
--- a/rsr_convert_scripts/ahi_reader.py
+++ b/rsr_convert_scripts/ahi_reader.py
@@ -97,7 +97,7 @@ def convert2hdf5(platform_name):
         h5f.attrs['description'] = 'Relative Spectral Responses for AHI'
         h5f.attrs['platform_name'] = platform_name
         h5f.attrs['sensor'] = 'ahi'
-        h5f.attrs['band_names'] = AHI_BAND_NAMES.values()
+        h5f.attrs['band_names'] = list(AHI_BAND_NAMES.values())
 
         for chname in AHI_BAND_NAMES.values():
 
-- 
2.43.0


From 116ecd13bb4ee8056a215592b1a94b4e64060470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:38 +0000
Subject: [PATCH 35/43] fix: convert the SEVIRI channels with one response per
 satellite

Indexing an array with a name is an IndexError.
---
 rsr_convert_scripts/seviri_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/seviri_rsr.py b/rsr_convert_scripts/seviri_rsr.py
index 2b3daeb..50d8abc 100644
--- a/rsr_convert_scripts/seviri_rsr.py
+++ b/rsr_convert_scripts/seviri_rsr.py
@@ -227,7 +227,7 @@ def generate_seviri_file(seviri, platform_name):
             dset[...] = arr
             try:
                 arr = seviri.rsr[key][sat_name]['95']
-            except ValueError:
+            except IndexError:
                 arr = seviri.rsr[key][sat_name]
             dset = grp.create_dataset('response', arr.shape, dtype='f')
             dset[...] = arr
-- 
2.43.0


From 4071907d9d7728582fd602f1c401e0b71fedd055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:38 +0000
Subject: [PATCH 36/43] fix: sheets of the Landsat OLI bands 6 to 9

Bands 6 and 7 are the short-wave infrared ones, 8 the panchromatic and 9 the
cirrus band; the names were in the order of wavelength.
---
 rsr_convert_scripts/oli_tirs_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsr_convert_scripts/oli_tirs_reader.py b/rsr_convert_scripts/oli_tirs_reader.py
index cdaf529..7cb80f4 100644
--- a/rsr_convert_scripts/oli_tirs_reader.py
+++ b/rsr_convert_scripts/oli_tirs_reader.py
@@ -30,10 +30,10 @@ OLI_BAND_NAMES = {"B1": "CoastalAerosol",
                   "B3": "Green",
                   "B4": "Red",
                   "B5": "NIR",
-                  "B6": "Cirrus",
-                  "B7": "SWIR1",
-                  "B8": "SWIR2",
-                  "B9": "Pan"}
+                  "B6": "SWIR1",
+                  "B7": "SWIR2",
+                  "B8": "Pan",
+                  "B9": "Cirrus"}
 
 TIRS_SHEETNAMES_L8 = {"B10": "TIRS BA RSR",
                       "B11": "TIRS BA RSR"}
-- 
2.43.0


From ed41ed0eaf052bcb865c23308830fb033d4735b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:42 +0000
Subject: [PATCH 37/43] fix: file name of the plot for sensors with a slash in
 their name

The plot of an AVHRR band could not be saved: avhrr/3 was taken for a directory.
---
 bin/plot_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/plot_rsr.py b/bin/plot_rsr.py
index 974aa52..fafdc43 100644
--- a/bin/plot_rsr.py
+++ b/bin/plot_rsr.py
@@ -65,4 +65,4 @@ if __name__ == "__main__":
             plt.xlim(xlimits[0], xlimits[1])
 
     plt.title(title)
-    plt.savefig('{}_{}_rsr_band{}.png'.format(platform, sensor, band))
+    plt.savefig('{}_{}_rsr_band{}.png'.format(platform, sensor.replace('/', ''), band))
-- 
2.43.0


From fe5ffe0c2f8808ade52c2065d3a9f0a5e2bc0f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:42 +0000
Subject: [PATCH 38/43] fix: composite plot with a platform that carries none
 of the sensors

The responses of the platform before were plotted once more, or the name was
undefined for the first platform.
---
 bin/composite_rsr_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/composite_rsr_plot.py b/bin/composite_rsr_plot.py
index 859e9d4..32a1f5a 100644
--- a/bin/composite_rsr_plot.py
+++ b/bin/composite_rsr_plot.py
@@ -137,6 +137,7 @@ if __name__ == "__main__":
     something2plot = False
 
     for platform in platform_names:
+        rsr = None
         for sensor in sensors:
             if platform in INSTRUMENTS and sensor not in INSTRUMENTS.get(platform):
                 continue
-- 
2.43.0


From 9d7741fb581ecdf0c51816d3bc59edfabdbc0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:42 +0000
Subject: [PATCH 39/43] fix: leave out the excluded bands when plotting by
 wavelength

---
 bin/composite_rsr_plot.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bin/composite_rsr_plot.py b/bin/composite_rsr_plot.py
index 32a1f5a..b181615 100644
--- a/bin/composite_rsr_plot.py
+++ b/bin/composite_rsr_plot.py
@@ -160,13 +160,12 @@ if __name__ == "__main__":
             bands = rsr.get_bandname_from_wavelength(req_wvl, 0.25, multiple_bands=True)
             if not bands:
                 continue
-            if isinstance(bands, list):
-                for b__ in bands:
+            if not isinstance(bands, list):
+                bands = [bands]
+            for b__ in bands:
+                if b__ not in excluded_bandnames:
                     plt = plot_band(plt, b__, rsr,
                                     platform_name_in_legend=(not no_platform_name_in_legend))
-            else:
-                plt = plot_band(plt, bands, rsr,
-                                platform_name_in_legend=(not no_platform_name_in_legend))
 
         elif band:
             plt = plot_band(plt, band, rsr,
-- 
2.43.0


From de5f0b7176e158781b3769176999b4eae704fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:25 +0000
Subject: [PATCH 40/43] fix: plot the solar spectrum without a LaTeX
 installation

text.latex.unicode is no longer a matplotlib setting, so that plotting always
failed; the labels need no LaTeX, and the settings of later plots are kept.
---
 pyspectral/solar.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyspectral/solar.py b/pyspectral/solar.py
index 8159332..f7352a4 100644
--- a/pyspectral/solar.py
+++ b/pyspectral/solar.py
@@ -259,9 +259,6 @@ class SolarIrradianceSpectrum(object):
             raise TypeError('Neither wavelengths nor wavenumbers available!')
 
         from matplotlib import pyplot as plt
-        from matplotlib import rcParams
-        rcParams['text.usetex'] = True
-        rcParams['text.latex.unicode'] = True
 
         fig, axl = plt.subplots(figsize=(8, 4))
         plot_title = "Solar Irradiance Spectrum"
-- 
2.43.0


From 2c823d62d38174ecbc7faf9e1b846f2617eeefde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:52 +0000
Subject: [PATCH 41/43] fix: read the FY-3B MERSI-1 bands 8 to 20 from their
 own columns

The file holds the wavelengths followed by bands 1-4 and 8-20, so band 8 is
in the fifth column after the wavelengths. It was read from the column of
band 4, and all the following bands from the column of the band before.
---
 rsr_convert_scripts/mersi1_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/mersi1_rsr.py b/rsr_convert_scripts/mersi1_rsr.py
index 03a5695..14eab9c 100644
--- a/rsr_convert_scripts/mersi1_rsr.py
+++ b/rsr_convert_scripts/mersi1_rsr.py
@@ -73,7 +73,7 @@ class Mersi1FY3ABRSR(InstrumentRSR):
             if self.bandname in fy3b_file1_bands_part1:
                 response = data[fy3b_file1_bands_part1.index(self.bandname) + 1]
             elif self.bandname in fy3b_file1_bands_part2:
-                response = data[fy3b_file1_bands_part2.index(self.bandname) + 4]
+                response = data[fy3b_file1_bands_part2.index(self.bandname) + 5]
             else:
                 response = data[fy3b_file2_bands.index(self.bandname) + 1]
 
-- 
2.43.0


From d843f205bb2540acee05deaddf8e529641413639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:46 +0000
Subject: [PATCH 42/43] fix: Rayleigh correction of arrays in non-native byte
 order

---
 pyspectral/rayleigh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index b8067a0..487616a 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -222,6 +222,8 @@ class Rayleigh(RayleighConfigBaseClass):
         repr_arr = sun_zenith if redband is None else redband
         if not np.issubdtype(repr_arr.dtype, np.floating):
             repr_arr = repr_arr.astype(np.float64)
+        # the interpolation can only deal with the native byte order
+        repr_arr = repr_arr.astype(repr_arr.dtype.newbyteorder("="), copy=False)
         try:
             rayleigh_refl = _get_wavelength_adjusted_lut_rayleigh_reflectance(
                 self.reflectance_lut_filename, wvl)
-- 
2.43.0


From af9a948b3a4486658b47de174e2fd5744a25f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 43/43] fix: remove the version marker when a later member of
 its name is refused

---
 pyspectral/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index ab995ca..061b49a 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -471,7 +471,13 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
             (extract_dir / os.path.normpath(member.name)).unlink(missing_ok=True)
         tar.extractall(extract_dir, [mbr for mbr in members if mbr not in version_members],
                        **tar_kwargs)  # type: ignore
-        tar.extractall(extract_dir, version_members, **tar_kwargs)  # type: ignore
+        try:
+            tar.extractall(extract_dir, version_members, **tar_kwargs)  # type: ignore
+        except tarfile.TarError:
+            # refused, so one of them already in place must not make the directory look up-to-date
+            for member in version_members:
+                (extract_dir / os.path.normpath(member.name)).unlink(missing_ok=True)
+            raise
 
     os.remove(local_pathname)
 
-- 
2.43.0

