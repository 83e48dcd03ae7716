From 25501c45a2c848c0c7b10fb456f8bcbea4bf5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 01/43] fix: accurate sin(theta) close to the poles in
 legendre_poly

sqrt(1 - cos(theta)**2) is zero for colatitudes within about 1e-6 degrees
of the poles, so that B_phi became nan there.
---
 chaosmagpy/model_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 02c8b78..4824999 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -925,7 +925,11 @@ def legendre_poly(nmax, theta):
     """
 
     costh = np.cos(np.radians(theta))
-    sinth = np.sqrt(1-costh**2)
+
+    # angular distance from the closest pole, since sqrt(1 - costh**2) suffers
+    # from cancellation near the poles (and is zero only exactly at the poles)
+    theta_pole = np.minimum(theta, np.subtract(180., theta))
+    sinth = np.abs(np.sin(np.radians(theta_pole)))
 
     Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
     Pnm[0, 0] = 1.  # is copied into trailing dimensions
-- 
2.43.0


From 85c494f6a28361eb46d0bc87348962452663c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 02/43] fix: reject colatitudes out of bounds also if the poles
 are included

An array like [0., 200.] passed the check because one end was exactly at a
pole.
---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 4824999..b7ab7d9 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -501,7 +501,7 @@ def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
     theta_max = np.amax(theta)
 
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
@@ -790,7 +790,7 @@ def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
 
     # check if poles are included
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
-- 
2.43.0


From b6318653b506d7b3d14a953e4dc7aea0224641cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 03/43] fix: accept frequency vectors in synth_rotate_gauss

The documented shape (k,) was not brought to (k, 1, 1), as the result of
reshape was discarded.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 199b6d6..0b1d176 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -239,7 +239,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     time = np.array(time[..., None, None, None], dtype=float)
     frequency = 2*np.pi*np.array(frequency, dtype=float)
     if frequency.ndim == 1:
-        frequency.reshape(-1, 1, 1)
+        frequency = frequency.reshape(-1, 1, 1)
     spectrum = np.array(spectrum, dtype=complex)
 
     # output of shape (..., k, n, m)
-- 
2.43.0


From ed32a65b761e72ff573502fb648d19c44153b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 04/43] fix: nan in zenith_angle at the subsolar point and its
 antipode

The cosine can exceed one by a rounding error.
---
 chaosmagpy/coordinate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 0b1d176..913351c 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -824,7 +824,8 @@ def zenith_angle(time, theta, phi):
     cos_zeta = (np.cos(theta)*np.cos(colat) +
                 np.sin(theta)*np.sin(colat)*np.cos(azim - phi))
 
-    return np.degrees(np.arccos(cos_zeta))
+    # rounding errors may lead to values slightly outside of [-1, 1]
+    return np.degrees(np.arccos(np.clip(cos_zeta, -1., 1.)))
 
 
 def spherical_to_cartesian(radius, theta, phi):
-- 
2.43.0


From 08d6c49944d65d2f02898562d3ec1beffbbba006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 05/43] fix: sun_position silently accepted times before 1901

The lower bound was checked with the wrong sign and could never trigger.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 913351c..9d5d981 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -758,7 +758,7 @@ def sun_position(time):
     rad = np.pi / 180
     year = 2000  # reference year for mjd2000
     assert np.all((year + time // 365.25) < 2099) \
-        and np.all((year - time // 365.25) > 1901), \
+        and np.all((year + time // 365.25) >= 1901), \
         ("Time must be between 1901 and 2099.")
 
     frac_day = np.remainder(time, 1)  # decimal fraction of a day
-- 
2.43.0


From ea4bb0d8d5ef9d13747e5cb7bf473f49c71976d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 06/43] fix: real-valued surface resistance in q_response_1D
 (kind='quadratic')

The variable omega is the imaginary unit times the angular frequency.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 9d5d981..65e802c 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1885,7 +1885,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
         # Compute the C-response (in km)
         C = 1/(omega*mu*Y[:, 0])/1e3
 
-        rho_a = mu*omega*np.abs(C*1000)**2  # rho_a in (Ohm*m)
+        rho_a = mu*np.abs(omega)*np.abs(C*1000)**2  # rho_a in (Ohm*m)
         phi = 90 + 57.3*np.angle(C)  # phase phi in degrees
 
         # Q-response
-- 
2.43.0


From 8a2f6db1d2bfcfb3468ccad0d6ef890ac75692d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 07/43] fix: q_response_1D failed for a single period given as
 float

The documentation allows periods to be a float.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 65e802c..2cb7351 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1716,7 +1716,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
     if kind is None:
         kind = 'quadratic'
 
-    periods = np.asarray(periods, dtype=float)  # ensure numpy array
+    periods = np.atleast_1d(np.asarray(periods, dtype=float))  # ensure array
     if periods.ndim > 1:
         raise ValueError("Input ``periods`` must be a vector.")
 
-- 
2.43.0


From d9361fe783534c896926436c861dd7a41f4c4a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 08/43] fix: mjd2000 wrapped around for dates outside of
 1678-2262

Nanoseconds since 1970 in 64 bits cover 584 years only and numpy wraps
silently, e.g. the year 1600 became 2184. Count days and nanoseconds of the
day separately. This also affected dyear_to_mjd and mjd_to_dyear, and so the
times of SHC-files.
---
 chaosmagpy/data_utils.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index cb076d9..17b1e71 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -438,7 +438,11 @@ datetime.datetime(2002, 3, 4)])
 
     if (np.issubdtype(year.dtype, np.dtype(dt.datetime).type) or
             np.issubdtype(year.dtype, np.datetime64)):
-        datetime = year.astype('datetime64[ns]')
+        # days and time of the day separately to not overflow nanoseconds
+        if year.dtype == object:
+            year = year.astype('datetime64[us]')
+        date = year.astype('datetime64[D]')
+        time_of_day = year - date
 
     else:
         # build iso datetime string with str_ (supported in NumPy >= 2.0)
@@ -447,20 +451,22 @@ datetime.datetime(2002, 3, 4)])
         day = np.char.zfill(np.asarray(day, dtype=np.str_), 2)
 
         year_month = np.char.add(np.char.add(year, '-'), month)
-        datetime = np.char.add(np.char.add(year_month, '-'), day)
+        date = np.char.add(np.char.add(year_month, '-'), day)
 
-        datetime = datetime.astype('datetime64[ns]')
+        date = date.astype('datetime64[D]')
 
         # not use iadd here because it doesn't broadcast arrays
-        datetime = (datetime + np.asarray(hour, dtype='timedelta64[h]')
-                    + np.asarray(minute, dtype='timedelta64[m]')
-                    + np.asarray(second, dtype='timedelta64[s]')
-                    + np.asarray(microsecond, dtype='timedelta64[us]')
-                    + np.asarray(nanosecond, dtype='timedelta64[ns]'))
+        time_of_day = (np.asarray(hour, dtype='timedelta64[h]')
+                       + np.asarray(minute, dtype='timedelta64[m]')
+                       + np.asarray(second, dtype='timedelta64[s]')
+                       + np.asarray(microsecond, dtype='timedelta64[us]')
+                       + np.asarray(nanosecond, dtype='timedelta64[ns]'))
 
-    nanoseconds = datetime - np.datetime64('2000-01-01', 'ns')
+    days = date - np.datetime64('2000-01-01', 'D')
 
-    return nanoseconds / np.timedelta64(1, 'D')  # fraction of days
+    # fraction of days
+    return (days / np.timedelta64(1, 'D')
+            + time_of_day / np.timedelta64(1, 'D'))
 
 
 def timestamp(time):
-- 
2.43.0


From dcb64f8b8590422dbd70905abcf7fd3d1585769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 09/43] fix: is_leap_year rejected integers other than the
 default type

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 17b1e71..2aa1723 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -528,7 +528,7 @@ def is_leap_year(year):
 
     year = np.asarray(year)
 
-    if not np.issubdtype(year.dtype, int):
+    if not np.issubdtype(year.dtype, np.integer):
         raise TypeError('Expected integer values as the input year. Use '
                         'numpy.floor to extract the integer year '
                         'from decimal years.')
-- 
2.43.0


From ff6e70f053f9770247af8ab30d8691b372a970ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 10/43] fix: Taylor coefficients of the polynomial
 extrapolation in synth_coeffs

The k-th derivative was used as the coefficient of the power k without
dividing by k!, so that the extrapolation with polynomials of degree 2 and
higher was wrong (e.g. extrapolate='spline' did not continue the spline).
---
 chaosmagpy/chaos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index a602014..bde1140 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -200,8 +200,10 @@ class Base(object):
             if key > 0:
                 for x in [start, end]:  # left and right
                     bin = np.zeros((self.order, 1, dim))
+                    factorial = 1.
                     for k in range(key):
-                        bin[-1-k] = PP(x, nu=k)
+                        bin[-1-k] = PP(x, nu=k) / factorial
+                        factorial *= k + 1
                     PP.extend(bin, np.array([x]))
 
             else:  # no extrapolation
-- 
2.43.0


From cebcc45bb7321339c0ea98dec355d1d08a291461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 11/43] fix: NaN in time switched off the treatment of
 extrapolation

A single NaN in the time array hid the times outside of the model interval,
which were then evaluated with the full-order polynomials irrespective of
the extrapolate keyword.
---
 chaosmagpy/chaos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index bde1140..1ca152a 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -152,7 +152,9 @@ class Base(object):
         start = self.breaks[0]
         end = self.breaks[-1]
 
-        if (np.amin(time) < start) or (np.amax(time) > end):
+        time = np.asarray(time, dtype=float)
+
+        if np.any(time < start) or np.any(time > end):
 
             dkey = {
                 'linear': 2,
-- 
2.43.0


From bd8bd89d993834ae173e9bedb7364982e373555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 12/43] fix: restore the setting if an exception is raised in
 BasicConfig.context

---
 chaosmagpy/config_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 50b3525..701953e 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -291,8 +291,10 @@ class BasicConfig(dict):
         """
         old_value = self.__getitem__(key)
         self.__setitem__(key, value)
-        yield
-        self.__setitem__(key, old_value)
+        try:
+            yield
+        finally:
+            self.__setitem__(key, old_value)
 
 
 # load defaults
-- 
2.43.0


From 01cbcdbabc8775acf18fe0bc510f98cb8dc6f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 13/43] fix: plot_power_spectrum overwrote zeros in the input
 array

---
 chaosmagpy/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/plot_utils.py b/chaosmagpy/plot_utils.py
index 51227d4..b40ed25 100644
--- a/chaosmagpy/plot_utils.py
+++ b/chaosmagpy/plot_utils.py
@@ -257,7 +257,8 @@ def plot_power_spectrum(spectrum, **kwargs):
     ylabel = kwargs.pop('ylabel')
 
     degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
-    spectrum[spectrum == 0] = np.nan  # remove non-positive values for log
+    # remove non-positive values for log (do not change the input)
+    spectrum = np.where(spectrum == 0, np.nan, spectrum)
 
     # create axis handle
     fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
-- 
2.43.0


From 79355e5e97d51bcd8181523021e597631dfacaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 14/43] fix: unpack single-element object arrays of any
 dimension in load_matfile

With hdf5storage >= 0.2, the calibration parameters written by
CHAOS.save_matfile are read as object array with shape (1,), which was not
unpacked, so that the file could not be loaded by CHAOS.from_mat.
---
 chaosmagpy/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 2aa1723..349a4b6 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -84,8 +84,8 @@ def load_matfile(filepath, variable_names=None, **kwargs):
 
             # if no fields in array
             if names is None:
-                if struct.dtype == np.dtype('O') and struct.shape == (1, 1):
-                    return traverse_struct(struct[0, 0])
+                if struct.dtype == np.dtype('O') and struct.size == 1:
+                    return traverse_struct(struct.item())
                 else:
                     return struct.squeeze()
 
-- 
2.43.0


From 8286f123c3c7be4f89deb221f2c1c1f1e31d3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 15/43] fix: save_matfile for satellites with an equal number
 of Euler angle bins

NumPy merged the lists of equally long arrays to a single multidimensional
array, so that the saved MAT-file could not be loaded again. The same applies
to a single satellite, whose cell is unpacked upon loading.
---
 chaosmagpy/chaos.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 1ca152a..82453a0 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2316,16 +2316,23 @@ str, {'internal', 'external'}
                 gamma.append(self.model_euler[satellite].coeffs[
                     0, :, 2].reshape((-1, 1)).astype(float))
 
-            hdf.write(np.array(t_break_Euler, dtype='object'),
+            # vector of arrays (also if the arrays have the same shape)
+            def to_cell(arrays):
+                cell = np.empty((len(arrays),), dtype='object')
+                for k, array in enumerate(arrays):
+                    cell[k] = array
+                return cell
+
+            hdf.write(to_cell(t_break_Euler),
                       path='/model_Euler/t_break_Euler/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(alpha, dtype='object'),
+            hdf.write(to_cell(alpha),
                       path='/model_Euler/alpha/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(beta, dtype='object'),
+            hdf.write(to_cell(beta),
                       path='/model_Euler/beta/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(gamma, dtype='object'),
+            hdf.write(to_cell(gamma),
                       path='/model_Euler/gamma/',
                       filename=filepath, matlab_compatible=True)
 
@@ -2590,6 +2597,11 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         breaks_euler = None
 
     else:
+        # cell of a single satellite is unpacked to a numeric array on loading
+        for key, value in model_euler.items():
+            if value.dtype != object:
+                model_euler[key] = [value.reshape((-1, 1))]
+
         # append generic satellite name if more data available or reduce
         t_break_Euler = model_euler['t_break_Euler']
         n = len(t_break_Euler)
-- 
2.43.0


From a7355cb255a6169ead019d03452355ffa2615363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 16/43] fix: list of satellites given to load_CHAOS_matfile was
 changed

Names for additional satellites were appended to the list of the caller,
and a tuple raised an AttributeError.
---
 chaosmagpy/chaos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 82453a0..5f87b02 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2530,6 +2530,8 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     if satellites is None:
         satellites = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
                       'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
+    else:
+        satellites = list(satellites)  # do not change the input
 
     mat_contents = du.load_matfile(filepath)
 
-- 
2.43.0


From 2681ec171da15da0ed91d6c90033c1a863062161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 17/43] fix: CHAOS could not be initialized without Euler
 pre-rotation angles

Euler angles without meta, or from a MAT-file without the params structure,
raised a TypeError.
---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 5f87b02..671ab00 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1013,7 +1013,7 @@ class CHAOS(object):
 
                 try:
                     Euler_prerotation = meta['params']['Euler_prerotation'][k]
-                except KeyError:
+                except (KeyError, TypeError):  # not available
                     Euler_prerotation = None
 
                 model = Base(
-- 
2.43.0


From 5f8f96504dd7fca9f89ea08bb9c194704701ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 18/43] fix: load MAT-files with a single bin of the SM offsets
 or a single satellite

load_matfile squeezes the arrays, which removed the dimension of the bins
from the offsets and of the satellites from the Euler pre-rotation angles.
---
 chaosmagpy/chaos.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 671ab00..e5389e2 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2585,7 +2585,7 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         # reshape to comply with scipy PPoly coefficients
         coeffs_delta = dict()
         coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
-        qs11 = model_ext['qs11']
+        qs11 = model_ext['qs11'].reshape((-1, 2))
         coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
         coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
 
@@ -2647,7 +2647,10 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     # load additional parameters
     try:
         params = mat_contents['params']
-        dict_params = {'Euler_prerotation': params['Euler_prerotation']}
+        prerotation = params['Euler_prerotation']
+        if prerotation is not None:  # ensure 2-D if there is one satellite
+            prerotation = prerotation.reshape((-1, 3))
+        dict_params = {'Euler_prerotation': prerotation}
 
     except KeyError as err:
         warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
-- 
2.43.0


From 840000d7bf17d9e043bcca68817e1ebd9553476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 19/43] fix: static coefficients given as vector to CHAOS

The documented shape of coeffs_static is that of a vector, of which only the
last coefficient was used.
---
 chaosmagpy/chaos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index e5389e2..3d2f85f 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -975,6 +975,11 @@ class CHAOS(object):
         if coeffs_static is None:
             self.model_static = None
         else:
+            coeffs_static = np.asarray(coeffs_static, dtype=float)
+
+            if coeffs_static.ndim == 1:  # add polynomial order and piece
+                coeffs_static = coeffs_static.reshape((1, 1, -1))
+
             self.model_static = BaseModel(
                 name=name + '_static',
                 breaks=breaks[[0, -1]],
-- 
2.43.0


From 24c4e0731862d326b5d2f628b0b7046b54693b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 20/43] fix: save static field of a model without
 time-dependent field as SHC-file

---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 3d2f85f..2ea6e7b 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2228,7 +2228,8 @@ str, {'internal', 'external'}
                 raise ValueError("Static internal field coefficients "
                                  "are missing.")
 
-            nmin = self.model_tdep.nmax + 1
+            nmin = (1 if self.model_tdep is None
+                    else self.model_tdep.nmax + 1)
             nmax = self.model_static.nmax
             order = 1
 
-- 
2.43.0


From 171764a3c1a7f2f257bf216f168e1ead58ccf29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 21/43] fix: GSM coefficients of a model without static
 internal field

Only the model interval for a warning was taken from the static field, which
is optional in a MAT-file.
---
 chaosmagpy/chaos.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 2ea6e7b..b48670a 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1574,9 +1574,14 @@ str, {'internal', 'external'}
         # ensure ndarray input
         time = np.asarray(time, dtype=float)
 
-        # use static part to define modelled period
-        start = self.model_static.breaks[0]
-        end = self.model_static.breaks[-1]
+        # use static part (or time-dependent part) to define modelled period
+        model = (self.model_tdep if self.model_static is None
+                 else self.model_static)
+
+        if model is None:
+            start, end = -np.inf, np.inf
+        else:
+            start, end = model.breaks[[0, -1]]
 
         if np.amin(time) < start or np.amax(time) > end:
             warnings.warn(
-- 
2.43.0


From 3f6f5f303cdb71d495cef1febd3787026353e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 22/43] fix: timestamp returned wrong dates before 1707

Dates before October 1707, which are in the range of datetime64[ns], were
off by 584 years due to an overflow of the nanoseconds since 2000. The same
was the case for dates out of that range, which now raise an OverflowError.
---
 chaosmagpy/data_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 349a4b6..0844f46 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -494,11 +494,14 @@ def timestamp(time):
 
     """
 
-    # convert mjd2000 to timedelta64[ns]
-    ns = np.asarray(time) * 86400e9 * np.timedelta64(1, 'ns')
+    time = np.asarray(time, dtype=float)
+
+    # convert days and time of the day separately to not overflow nanoseconds
+    days = np.floor(time)
+    date = np.datetime64('2000-01-01', 'D') + days * np.timedelta64(1, 'D')
+    ns = (time - days) * 86400e9 * np.timedelta64(1, 'ns')
 
-    # add datetime offset with ns precision
-    return ns + np.datetime64('2000-01-01', 'ns')
+    return date.astype('datetime64[ns]') + ns
 
 
 def is_leap_year(year):
-- 
2.43.0


From 3e2c603eb636e6e1f5500f83e25a37b828ef40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 23/43] fix: save_shcfile failed for a single time given as
 float

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 0844f46..20de6d7 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -318,7 +318,7 @@ def save_shcfile(time, coeffs, order=None, filepath=None, nmin=None, nmax=None,
 
     """
 
-    time = np.asarray(time, dtype=float)
+    time = np.atleast_1d(np.asarray(time, dtype=float))
 
     order = 1 if order is None else int(order)
 
-- 
2.43.0


From 24a6cdfcdc6b7d1db72132af86228eb1875b7294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 24/43] fix: scaling of unscaled spectrum loaded from file

The flag 'scaled' read from a npz-file is a NumPy boolean, so the identity
test with False failed and the factor of two was never applied.
---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 2cb7351..33384d5 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -249,7 +249,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     harmonics = np.empty(freq_t.shape, dtype=complex)
     harmonics = np.cos(freq_t) + 1j*np.sin(freq_t)
 
-    if scaled is False:
+    if not scaled:
         # scale non-offset coefficients by 2 before synthesizing matrices
         harmonics = np.where(frequency > 0.0, 2*harmonics, harmonics)
 
-- 
2.43.0


From 69369535d87bc5af7bcd6b73ddfacb428c32bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 25/43] fix: changing a setting in place changed its default
 value

The configuration shared the arrays with the default values, so that
reset and fullreset did not bring back the defaults after an in-place
change, for example, of the dipole coefficients.
---
 chaosmagpy/config_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 701953e..4a0314f 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -76,6 +76,7 @@ be accessed after importing chaosmagpy through:
 
 import os
 import re
+import copy
 import json
 import numpy as np
 import warnings
@@ -213,7 +214,8 @@ class BasicConfig(dict):
         Load all default values.
 
         """
-        super().update({key: val for key, (val, _) in self.defaults.items()})
+        super().update({key: copy.copy(val) for key, (val, _)
+                        in self.defaults.items()})
 
     def load(self, filepath):
         """
@@ -298,7 +300,8 @@ class BasicConfig(dict):
 
 
 # load defaults
-basicConfig = BasicConfig({key: val for key, (val, _) in DEFAULTS.items()})
+basicConfig = BasicConfig({key: copy.copy(val) for key, (val, _)
+                           in DEFAULTS.items()})
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 8ae807c30721829e3e2fd8f07e8e4353a60adb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 26/43] fix: sensitivity failed for integer coefficients

---
 chaosmagpy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index b7ab7d9..80c91c2 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -1161,7 +1161,7 @@ def sensitivity(coeffs, coeffs_true):
 
     nmax = int(np.sqrt(coeffs.size + 1) - 1)
 
-    S = coeffs - coeffs_true
+    S = np.subtract(coeffs, coeffs_true, dtype=float)
 
     # apply degree-dependent scaling
     for n in range(1, nmax+1):
-- 
2.43.0


From e0dc3a84468fce6f334437f22604f346f49060b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 27/43] fix: to_shc sampled the break points twice for splines
 of order 8 and others

The length of np.arange(start, end, delta) is subject to rounding: with seven
intervals (order 8) and others, the end of a polynomial piece was in part of
the cases included as one more site, the file has then a wrong number of
sites between the break points.
---
 chaosmagpy/chaos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index b48670a..d51e946 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -740,8 +740,8 @@ class BaseModel(Base):
             times = np.array([], dtype=float)
 
             for start, end in zip(self.breaks[:-1], self.breaks[1:]):
-                delta = (end - start) / step
-                times = np.append(times, np.arange(start, end, delta))
+                sites = np.linspace(start, end, num=step, endpoint=False)
+                times = np.append(times, sites)
 
             times = np.append(times, self.breaks[-1])
 
-- 
2.43.0


From b18fa0457c2a969912c3062b2b985cc7f9557179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 28/43] fix: collocation matrix and synth_from_pp failed for
 integer knots or coefficients

---
 chaosmagpy/model_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 80c91c2..bf864ec 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -174,6 +174,8 @@ def colloc_matrix(x, knots, order, deriv=None):
     if deriv is None:
         deriv = 0
 
+    knots = np.asarray(knots, dtype=float)
+
     if deriv >= order:
         return np.zeros((max(x.size, 1), knots.size - order))
 
@@ -332,8 +334,8 @@ def synth_from_pp(breaks, order, coeffs, time, radius, theta, phi, *,
     # set grid option to false
     grid = False if grid is None else grid
 
-    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)], breaks,
-                              extrapolate=False)
+    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)].astype(float),
+                              breaks.astype(float), extrapolate=False)
 
     PP = PP.derivative(nu=deriv)
     gauss_coeffs = PP(time) * 365.25**deriv
-- 
2.43.0


From 8f8163f79f5e515c8902b71a1898d722fcdd3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 29/43] fix: spectra and Legendre functions wrong for small
 integer types (overflow)

---
 chaosmagpy/model_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index bf864ec..fa88f45 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -926,6 +926,7 @@ def legendre_poly(nmax, theta):
 
     """
 
+    theta = np.asarray(theta, dtype=float)
     costh = np.cos(np.radians(theta))
 
     # angular distance from the closest pole, since sqrt(1 - costh**2) suffers
@@ -1027,6 +1028,8 @@ def power_spectrum(coeffs, radius=None, *, nmax=None, source=None, axis=None):
 
     """
 
+    coeffs = np.asarray(coeffs, dtype=float)
+
     axis = -1 if axis is None else int(axis)
     if radius is None:
         r = 1
@@ -1111,6 +1114,8 @@ def degree_correlation(coeffs_1, coeffs_2):
     R_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_1
     S_n = np.zeros((nmax,))  # elements are prop. to power spectrum of coeffs_2
 
+    coeffs_1 = np.asarray(coeffs_1, dtype=float)
+    coeffs_2 = np.asarray(coeffs_2, dtype=float)
     coeffs_12 = coeffs_1*coeffs_2
 
     for n in range(1, nmax+1):
@@ -1163,6 +1168,7 @@ def sensitivity(coeffs, coeffs_true):
 
     nmax = int(np.sqrt(coeffs.size + 1) - 1)
 
+    coeffs_true = np.asarray(coeffs_true, dtype=float)
     S = np.subtract(coeffs, coeffs_true, dtype=float)
 
     # apply degree-dependent scaling
-- 
2.43.0


From 8dfa40cea92668ae93d575ea99f43e4697b44e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 30/43] fix: coordinate transformations wrong for small integer
 types (overflow)

---
 chaosmagpy/coordinate_utils.py | 41 +++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 33384d5..601dfc4 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -138,14 +138,15 @@ def _dipole_to_unit(*args):
     """
 
     if len(args) == 1:
-        vector = np.roll(args[0], shift=-1, axis=-1)  # g11, h11, g10: dipole
+        # g11, h11, g10: dipole
+        vector = np.roll(np.asarray(args[0], dtype=float), shift=-1, axis=-1)
 
         # unit vector, opposite to dipole
         vector = -vector / np.linalg.norm(vector, axis=-1, keepdims=True)
 
     elif len(args) == 2:
-        theta = np.radians(args[0])
-        phi = np.radians(args[1])
+        theta = np.radians(np.asarray(args[0], dtype=float))
+        phi = np.radians(np.asarray(args[1], dtype=float))
 
         vector = np.stack([np.sin(theta)*np.cos(phi),
                            np.sin(theta)*np.sin(phi),
@@ -153,7 +154,7 @@ def _dipole_to_unit(*args):
 
     elif len(args) == 3:
         # g11, h11, g10: dipole
-        vector = np.stack([args[1], args[2], args[0]], axis=-1)
+        vector = np.stack([args[1], args[2], args[0]], axis=-1).astype(float)
 
         # unit vector, opposite to dipole
         vector = -vector / np.linalg.norm(vector, axis=-1, keepdims=True)
@@ -755,6 +756,8 @@ def sun_position(time):
     Geophysical%20Coordinate%20Transformations.htm#appendix2>`_
 
     """
+    time = np.asarray(time, dtype=float)
+
     rad = np.pi / 180
     year = 2000  # reference year for mjd2000
     assert np.all((year + time // 365.25) < 2099) \
@@ -818,8 +821,8 @@ def zenith_angle(time, theta, phi):
 
     colat = np.radians(theta_sun)
     azim = np.radians(phi_sun)
-    theta = np.radians(theta)
-    phi = np.radians(phi)
+    theta = np.radians(np.asarray(theta, dtype=float))
+    phi = np.radians(np.asarray(phi, dtype=float))
 
     cos_zeta = (np.cos(theta)*np.cos(colat) +
                 np.sin(theta)*np.sin(colat)*np.cos(azim - phi))
@@ -848,11 +851,13 @@ def spherical_to_cartesian(radius, theta, phi):
 
     """
 
-    theta, phi = np.radians(theta), np.radians(phi)
+    radius = np.asarray(radius, dtype=float)
+    theta = np.radians(np.asarray(theta, dtype=float))
+    phi = np.radians(np.asarray(phi, dtype=float))
 
-    x = np.array(radius) * np.cos(phi) * np.sin(theta)
-    y = np.array(radius) * np.sin(phi) * np.sin(theta)
-    z = np.array(radius) * np.cos(theta)
+    x = radius * np.cos(phi) * np.sin(theta)
+    y = radius * np.sin(phi) * np.sin(theta)
+    z = radius * np.cos(theta)
 
     return x, y, z
 
@@ -875,6 +880,10 @@ def cartesian_to_spherical(x, y, z):
         Longitude in degrees :math:`(-180^\\circ,180^\\circ]`.
     """
 
+    x = np.asarray(x, dtype=float)
+    y = np.asarray(y, dtype=float)
+    z = np.asarray(z, dtype=float)
+
     radius = np.sqrt(x**2 + y**2 + z**2)
     theta = np.arctan2(np.sqrt(x**2 + y**2), z)
     phi = np.arctan2(y, x)
@@ -928,6 +937,9 @@ def gg_to_geo(height, beta, X=None, Z=None):
     a = config_utils.basicConfig['params.ellipsoid'][0]  # equatorial radius
     b = config_utils.basicConfig['params.ellipsoid'][1]  # polar radius
 
+    height = np.asarray(height, dtype=float)
+    beta = np.asarray(beta, dtype=float)
+
     # convert geodetic colatitude to latitude
     alpha = np.radians(90. - beta)
 
@@ -1017,6 +1029,9 @@ def geo_to_gg(radius, theta, B_radius=None, B_theta=None):
     e4 = e2*e2
     ep2 = (a2 - b2) / b2  # squared primed eccentricity
 
+    radius = np.asarray(radius, dtype=float)
+    theta = np.asarray(theta, dtype=float)
+
     r = radius * np.sin(np.radians(theta))
     z = radius * np.cos(np.radians(theta))
 
@@ -1081,7 +1096,7 @@ def basevectors_gg(theta, beta):
         GEO.
 
     """
-    psi = np.radians(theta - beta)  # difference angle
+    psi = np.radians(np.subtract(theta, beta, dtype=float))  # difference angle
 
     grid_shape = np.broadcast(theta, beta).shape
 
@@ -1262,8 +1277,8 @@ def basevectors_use(theta, phi):
 
     """
 
-    theta = np.array(np.radians(theta))
-    phi = np.array(np.radians(phi))
+    theta = np.radians(np.asarray(theta, dtype=float))
+    phi = np.radians(np.asarray(phi, dtype=float))
 
     if (np.amin(theta) == 0.) or (np.amax(theta) == np.pi):
         raise ValueError("Basevectors are not defined at poles.")
-- 
2.43.0


From f97ffe801f701150394107bdf5f7f7e98b2f0670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 31/43] fix: q_response_1D wrong for radii of small integer
 types (overflow)

---
 chaosmagpy/coordinate_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 601dfc4..195b993 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1741,6 +1741,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
 
     if kind == 'constant':
 
+        radius = np.asarray(radius, dtype=float)
         nl = radius.size-2  # index of last layer, there are nl+1 layers
 
         eps = 1.0e-10
-- 
2.43.0


From 3da08de0cfd183e95c42c445341160a2a8e6c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 32/43] fix: BasicConfig.context keeps the temporary value if
 the previous path is gone

---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 4a0314f..2867bab 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -296,7 +296,7 @@ class BasicConfig(dict):
         try:
             yield
         finally:
-            self.__setitem__(key, old_value)
+            super().__setitem__(key, old_value)  # has been validated before
 
 
 # load defaults
-- 
2.43.0


From c6d3d61efb2a561d891038d1e4e9e09951f781a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 33/43] fix: vector settings accepted text and other
 non-numbers

---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 2867bab..6553351 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -124,7 +124,7 @@ def check_string(s):
 def check_vector(s, len=None):
     """Check that input is vector of required length."""
     try:
-        s = np.array(s)
+        s = np.array(s, dtype=float)
         assert s.ndim == 1
         if len is not None:
             if s.size != len:
-- 
2.43.0


From 56978b9ac67cda8bcfe1a0df9a76a3e8ff57a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 34/43] fix: reject unknown sources in the call of CHAOS

---
 chaosmagpy/chaos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index d51e946..6e37445 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1122,6 +1122,11 @@ str, {'internal', 'external'}
 
         source_list = np.ravel(np.array(source_list))
 
+        for source in source_list:
+            if source not in ['tdep', 'static', 'gsm', 'sm']:
+                raise ValueError(f'Unknown source "{source}". '
+                                 "Use {'tdep', 'static', 'gsm', 'sm'}.")
+
         verbose = bool(verbose)
 
         # get shape of broadcasted result
-- 
2.43.0


From f9973a0204fa9683545bed111ed263a016461fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:03 +0000
Subject: [PATCH 35/43] fix: response of uniform shells wrong for degrees above
 ten

---
 chaosmagpy/coordinate_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 195b993..be29589 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1745,9 +1745,10 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
         nl = radius.size-2  # index of last layer, there are nl+1 layers
 
         eps = 1.0e-10
-        zlimit = 3
+        zlimit = max(3, n)  # finite sums cancel if abs(z) < n
 
-        fac1 = factorial(n)
+        # 1*3*5*...*(2*n+1)
+        fac1 = float(factorial(2*n+1) // (2**n * factorial(n)))
         fac2 = (-1)**n * fac1/(2*n+1)
 
         # initialze helpers variables and output
-- 
2.43.0


From 1665b3d8f4f500dbb42af2c8f189414473fecad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 36/43] fix: response of uniform shells NaN if a shell is an
 insulator

---
 chaosmagpy/coordinate_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index be29589..d445935 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1761,6 +1761,13 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
 
         for counter, period in enumerate(periods):
             for il in range(nl, -1, -1):  # runs over nl...0
+                if sigma[il] == 0.:  # insulator: r**n + x*r**(-n-1)
+                    r0, r1 = 1000*radius[il], 1000*radius[il+1]
+                    x = -1. if il == nl else (n - b*r1) / (n + 1 + b*r1)
+                    x = x * (r1/r0)**(2*n+1)
+                    b = (n - (n+1)*x) / (r0*(1. + x))
+                    continue
+
                 k = np.sqrt(8.0e-7 * 1.0j * np.pi**2 * sigma[il] / period)
                 z[0] = k*radius[il]*1000
                 z[1] = k*radius[il+1]*1000
-- 
2.43.0


From f54ceb8ae678fac0a9369dd79d766b722706e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:31 +0000
Subject: [PATCH 37/43] fix: NaN colatitudes hide poles and invalid colatitudes
 in the same array

---
 chaosmagpy/model_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index fa88f45..d755012 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -499,8 +499,8 @@ def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
     theta = np.asarray(theta, dtype=float)
     phi = np.asarray(phi, dtype=float)
 
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
+    theta_min = np.fmin.reduce(theta, axis=None)  # ignores NaN
+    theta_max = np.fmax.reduce(theta, axis=None)
 
     if (theta_min <= 0.0) or (theta_max >= 180.0):
         if (theta_min >= 0.0) and (theta_max <= 180.0):
@@ -787,8 +787,8 @@ def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
 
     shape = b.shape
 
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
+    theta_min = np.fmin.reduce(theta, axis=None)  # ignores NaN
+    theta_max = np.fmax.reduce(theta, axis=None)
 
     # check if poles are included
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-- 
2.43.0


From 76dd6a9ac70ce70b4dc58f78fd675800004d0236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:41 +0000
Subject: [PATCH 38/43] fix: interior knots of higher multiplicity gave the
 wrong pieces

---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index d755012..f571329 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -259,8 +259,8 @@ def pp_from_bspline(coeffs, knots, order):
         bs = BSpline(knots, coeffs[:, d], degree)
         pp = PPoly.from_spline(bs, extrapolate=False)
 
-        # remove endpoint multiplicities
-        coeffs_pp[:, :, d] = pp.c[:, degree:(degree+pieces)]
+        # remove multiplicities of knots (pieces of zero length)
+        coeffs_pp[:, :, d] = pp.c[:, np.diff(pp.x) > 0.]
 
     return coeffs_pp, breaks
 
-- 
2.43.0


From 0968a5cee074ffafb9913bcbc296ab2a7d0694fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 39/43] fix: blank lines in SHC-files were read as numbers

---
 chaosmagpy/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 20de6d7..b9eb41e 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -259,7 +259,8 @@ def load_shcfile(filepath, leap_year=None, comment=None):
         data = np.array([])
         for line in f.readlines():
 
-            if line.strip().startswith(comment):
+            # skip comments and blank lines
+            if not line.strip() or line.strip().startswith(comment):
                 continue
 
             newline = np.fromstring(line, sep=' ')
-- 
2.43.0


From f5e7a41624805174eb6612d98f01c4207ef526ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 40/43] fix: blank lines in IGRF TXT-files

---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 6e37445..f645fb1 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -3145,7 +3145,8 @@ def load_IGRF_txtfile(filepath, name=None):
     with open(filepath, 'r') as f:
         for line in f.readlines():
 
-            if line.lstrip().startswith(('#', 'c/s')):
+            # skip comments and blank lines
+            if not line.strip() or line.lstrip().startswith(('#', 'c/s')):
                 continue
 
             tmp = line.split()  # also splits consecutive whitespaces
-- 
2.43.0


From a5a33673893fabdca00fc8baa925361447ae893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 41/43] fix: file settings given as path object were lost on
 saving, file descriptors accepted

---
 chaosmagpy/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 6553351..35cad4f 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -91,6 +91,7 @@ def check_path_exists(s):
     """Check that path to file exists."""
     if s is None or s == 'None':
         return None
+    s = os.fsdecode(s)  # string, also if given as path object
     if os.path.exists(s):
         return s
     else:
-- 
2.43.0


From cb4d820e68dbf69ca178708350b4855704983713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:35 +0000
Subject: [PATCH 42/43] fix: years in an array of objects were read as
 microseconds

---
 chaosmagpy/data_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index b9eb41e..3302c16 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -437,6 +437,11 @@ datetime.datetime(2002, 3, 4)])
 
     year = np.asarray(year)
 
+    # integers in an array of objects are years
+    if year.dtype == object and all(
+            isinstance(y, (int, np.integer)) for y in year.flat):
+        year = year.astype(int)
+
     if (np.issubdtype(year.dtype, np.dtype(dt.datetime).type) or
             np.issubdtype(year.dtype, np.datetime64)):
         # days and time of the day separately to not overflow nanoseconds
-- 
2.43.0


From 0ffd19c7ce4d709fe15f786c56615757fac4d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:35 +0000
Subject: [PATCH 43/43] fix: warning named the order of the extrapolation as
 {key}

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index f645fb1..dac2912 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -191,7 +191,7 @@ class Base(object):
                 try:
                     message = rev_dkey[key]
                 except KeyError:
-                    message = 'order-{key} spline'
+                    message = f'order-{key} spline'
 
             warnings.warn("Requested coefficients are "
                           "outside of the model time period from "
-- 
2.43.0

