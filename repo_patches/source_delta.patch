From 8e63aaa54f41a928435fa74621b86d2e9ad61855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 01/69] fix: convert_energy refused the documented names
 Hartree and Rydberg

The scale name is lower-cased and then compared with mixed-case entries.
---
 quantas/utils/physics/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 54e92ea..5a5415d 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -149,11 +149,11 @@ def convert_energy(val, old_scale, new_scale):
 
     """
     # Convert from `old_scale` to Hartree
-    if old_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if old_scale.lower() in ['hartree', 'ha']:
         energy = np.asanyarray(val)
     elif old_scale.lower() in ['electron volt', 'eV', 'ev']:
         energy = np.asanyarray(val) * (eV / Ha)
-    elif old_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif old_scale.lower() in ['rydberg', 'ry']:
         energy = np.asanyarray(val) * (Ry / Ha)
     elif old_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
         energy = np.asanyarray(val) * (1000. / Ha / N)
@@ -162,11 +162,11 @@ def convert_energy(val, old_scale, new_scale):
                                   'are Hartree, eV, Rydberg and kJ/mol'
                                   % old_scale)
     # and from Hartree to `new_scale`.
-    if new_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if new_scale.lower() in ['hartree', 'ha']:
         res = energy
     elif new_scale.lower() in ['electron volt', 'eV', 'ev']:
         res = energy * (Ha / eV)
-    elif new_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif new_scale.lower() in ['rydberg', 'ry']:
         res = energy * (Ha / Ry)
     elif new_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
         res = energy * (Ha * N / 1000.)
-- 
2.43.0


From e012a0126d0ee50120bd11f0a96630ca95496a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 02/69] fix: energy_to_pressure and pressure_to_energy
 overwrote their argument

np.asarray does not copy, so the in-place scaling changed the caller's array;
integer arrays raised a casting error.
---
 quantas/utils/physics/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 5a5415d..a98a940 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -311,7 +311,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     [  1.60210478 320.42095571]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert energy in J
     if energy_scale.lower() in ['hartree', 'ha']:
         res *= Ha
@@ -406,7 +406,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     [0.00022938 0.00045876]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert pressures in Pascals
     if pressure_scale.lower() in ['gpa']:
         res *= giga
-- 
2.43.0


From e2114490e96a0898b326811d2b0551db983340e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 03/69] fix: Angstrom was the X-ray unit Angstrom star, not
 1e-10 m

Volumes and pressures converted through it were wrong by 4.5e-5.
---
 quantas/utils/physics/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index a98a940..ef46597 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -39,7 +39,7 @@ zero_Celsius = 273.15
 # Units typically used in QM software
 #
 # 1. Distances
-Angstrom = cs.value(u'Angstrom star')   # (m)
+Angstrom = cs.angstrom                  # (m)
 Bohr = cs.value(u'Bohr radius')         # (m)
 #
 # 2. Electronic Energy
-- 
2.43.0


From 4803b795b1eb17ddf80e3a986ff881b0afeb18c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 04/69] fix: temperature and pressure grids could run past the
 requested maximum

np.arange(min, max + step, step) includes a point above max when the step does
not divide the range, and with some roundings also when it does.
---
 quantas/harmonic/harmonic.py | 3 ++-
 quantas/qha/qha.py           | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index 9cc4f4d..4d70795 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -133,7 +133,8 @@ class HACalculator(BasicCalculator):
             values with float type.
 
         '''
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        steps = np.floor((temp[1] - temp[0]) / temp[2] + 1.e-6)
+        self._temperature = temp[0] + temp[2] * np.arange(steps + 1)
         return
 
     def read_input(self, filename):
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 80cedf1..e2efaac 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -284,7 +284,8 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._pressure = np.arange(press[0], press[1]+press[2], press[2])
+        steps = np.floor((press[1] - press[0]) / press[2] + 1.e-6)
+        self._pressure = press[0] + press[2] * np.arange(steps + 1)
         return
 
     @property
@@ -310,7 +311,8 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        steps = np.floor((temp[1] - temp[0]) / temp[2] + 1.e-6)
+        self._temperature = temp[0] + temp[2] * np.arange(steps + 1)
         return
 
     def read_input(self, filename):
-- 
2.43.0


From 2d0f38a6c307f78b68a934efd6ad19f8b122d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 05/69] fix: very small frequencies gave infinite entropy and
 free energy

log(1 - exp(-x)) underflows to log(0) when h nu / k T drops below the
double precision epsilon, as for acoustic modes carrying numerical
noise; log(-expm1(-x)) does not.
---
 quantas/utils/physics/statistical_mechanics.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/utils/physics/statistical_mechanics.pyx b/quantas/utils/physics/statistical_mechanics.pyx
index 589a334..f862112 100644
--- a/quantas/utils/physics/statistical_mechanics.pyx
+++ b/quantas/utils/physics/statistical_mechanics.pyx
@@ -199,7 +199,7 @@ cdef double ho_S(double temperature, double omega) nogil:
     else:
         x = H * omega / (KB * temperature)
         n = 1./expm1(x)
-        l = log(1. - exp(-x))
+        l = log(-expm1(-x))
         return NA * KB * (n * x - l)
 
 
@@ -271,7 +271,7 @@ cdef inline double ho_F(double temperature, double omega) nogil:
     else:
         x = H * omega / (KB * temperature)
         kt = KB * temperature
-        return pow(10.,-3) * NA * (0.5 * hw + kt * log(1.-exp(-x)))
+        return pow(10.,-3) * NA * (0.5 * hw + kt * log(-expm1(-x)))
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From c786bf602acd56d0944fd6cb8dd2a61af43cb13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 06/69] fix: QHA took a spurious polynomial minimum far from
 the sampled volumes

With several minima the one at the smallest volume was reported, even
when it lies far outside the sampled range and another one inside.
---
 quantas/qha/qha.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index e2efaac..1e806f2 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1053,7 +1053,12 @@ class QHACalculator(BasicCalculator):
             if isinstance(parameters, type(None)):
                 parameters = polyfit(volume, free_energy, self._edeg)
             pressure = self.set_target_pressure(pressure)
-            volume_PT = find_polynomial_minimum(parameters, pressure)[0]
+            minima = find_polynomial_minimum(parameters, pressure)
+            # Polynomials of high degree could show spurious minima far from
+            # the sampled volumes
+            distance = np.maximum(np.min(volume) - minima,
+                                  minima - np.max(volume))
+            volume_PT = minima[np.argmin(np.maximum(distance, 0.))]
             return volume_PT, 0., 0.
         elif self.eos_minimization.is_on():
             eos_pars, _ = self.find_eos_minimum(volume, free_energy, pressure)
-- 
2.43.0


From d03af10c9675c665ff12ccd4868a182a6e999925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 07/69] fix: QHA ended with a traceback when the volume
 minimization failed

---
 quantas/qha/qha.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 1e806f2..6e2757b 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -463,14 +463,18 @@ class QHACalculator(BasicCalculator):
             acoustic = convert_frequency(self.acoustic, self._funit, 'Hz')
         else:
             acoustic = None
-        if self.frequency_interpolation.is_on():
-            self.echo_debug('Switch to frequency interpolation mode')
-            self.run_frequency_interpolation(T, phonons, grid, idx, acoustic)
-        if self.thermodynamic_interpolation.is_on():
-            self.echo_debug('Switch to thermodynamics interpolation mode')
-            self.run_thermodynamics_interpolation(T, phonons,grid, idx,
-                                                  acoustic
-                                                  )
+        try:
+            if self.frequency_interpolation.is_on():
+                self.echo_debug('Switch to frequency interpolation mode')
+                self.run_frequency_interpolation(
+                    T, phonons, grid, idx, acoustic)
+            if self.thermodynamic_interpolation.is_on():
+                self.echo_debug('Switch to thermodynamics interpolation mode')
+                self.run_thermodynamics_interpolation(
+                    T, phonons, grid, idx, acoustic)
+        except RuntimeError as exc:
+            self.error = 'Volume minimization failed: {0}'.format(exc)
+            return
         self._finalize_run()
         
         self.echo('')
@@ -1054,6 +1058,8 @@ class QHACalculator(BasicCalculator):
                 parameters = polyfit(volume, free_energy, self._edeg)
             pressure = self.set_target_pressure(pressure)
             minima = find_polynomial_minimum(parameters, pressure)
+            if len(minima) == 0:
+                raise RuntimeError('no minimum of the free energy was found')
             # Polynomials of high degree could show spurious minima far from
             # the sampled volumes
             distance = np.maximum(np.min(volume) - minima,
-- 
2.43.0


From 3932b2ff9e7eea57677c84d8052f28ad8424949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 08/69] fix: QHA with acoustic option ended with AttributeError
 instead of its error message

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 6e2757b..ba5f020 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -259,7 +259,7 @@ class QHACalculator(BasicCalculator):
         ndarray(dtype=float, ndim=2)
             Array containing the acoustic frequency values at each volume.
         """
-        return self.input.acoustic_kieffer
+        return getattr(self.input, 'acoustic_kieffer', None)
 
     @property
     def pressure(self):
-- 
2.43.0


From 8cee10551a7c8cbf02f8bdc50c9bac4fc98d01cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 09/69] fix: QHA result file lost the job title and mislabelled
 the unit of Cp

---
 quantas/qha/qha.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index ba5f020..4f81755 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1257,7 +1257,7 @@ calculations performed with the following settings:
 
 Thermodynamics and mechanical properties were calculated as a function of
 pressure and temperature.
-""".format(self.input.job if hasattr(self.input, 'job') else 'Unknown',
+""".format(self.input.jobname,
            self._eunit, self._vunit, self._funit, self._tunit, self._punit,
            'frequency' if self.frequency_interpolation.is_on() else 'thermodynamic',
            'polynomial' if self.polynomial_minimization.is_on() else 'EoS'
@@ -1293,7 +1293,7 @@ pressure and temperature.
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
-                if prop == 'Cv' or prop == 'S':
+                if prop in ('Cv', 'S', 'Cp', 'Cp-Cv'):
                     dset.attrs['unit'] = 'm'+self._eunit
                 elif prop == 'VT':
                     dset.attrs['unit'] = self._vunit
-- 
2.43.0


From 6e68f584359171af7df076c5bdfc1b2ff8ad5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 10/69] fix: QHA report labelled volumes in A^3 whatever their
 unit

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 4f81755..b36d3da 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1218,7 +1218,7 @@ class QHACalculator(BasicCalculator):
             self.echo(
                 '{0: ^7} {1: ^14} {2: ^16} {3: ^9} {4: ^9} {5: ^16}'.format(
                     'T ({})'.format(self._tunit),
-                    'V(T) (A^3)',
+                    'V(T) ({}^3)'.format(self._vunit),
                     'a_V (K^-1)',
                     'KT ({})'.format(self._punit),
                     'KS ({})'.format(self._punit),
-- 
2.43.0


From 76f2c4e942dd16575cdb56f86ca702a2a959067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 11/69] fix: E-V EoS fit started from a spurious root of the
 guess polynomial

The root of smallest magnitude, even a maximum, a negative volume or the
real part of a complex pair, was taken as starting V0: the fit then
failed or returned that guess as if it were the solution.
---
 quantas/qha/utils/ev_eos.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 67f1681..61fcb53 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -147,9 +147,14 @@ class EnergyEOS(object):
         first_derivative = np.polyder(pars,1)
         second_derivative = np.polyder(pars,2)
         V_roots = np.roots(first_derivative)
-        Vs = V_roots * np.conj(V_roots)
-        root_minimum = np.argmin(Vs)
-        V0 = np.real(V_roots[root_minimum])
+        # Only the minima of the polynomial are meaningful
+        V_roots = np.real(V_roots[np.isreal(V_roots)])
+        V_roots = V_roots[np.polyval(second_derivative, V_roots) > 0.]
+        V_min = V[np.argmin(E)]
+        if len(V_roots) > 0:
+            V0 = V_roots[np.argmin(np.abs(V_roots - V_min))]
+        else:
+            V0 = V_min
         E0 = np.polyval(pars, V0)
         K0 = V0 * np.polyval(second_derivative, V0)
         guess_pars = [E0, K0, 4., V0]
-- 
2.43.0


From 0e115cd200c8b03dc59bf4cd27a438bcce3c0e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 12/69] fix: HA export crashed on zero-point and static
 energies

---
 quantas/harmonic/utils/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/harmonic/utils/table.py b/quantas/harmonic/utils/table.py
index 650117d..2cd206e 100644
--- a/quantas/harmonic/utils/table.py
+++ b/quantas/harmonic/utils/table.py
@@ -8,6 +8,8 @@
 # For further information on the license, see the LICENSE file               #
 ##############################################################################
 
+import numpy as np
+
 # ---------------------------------------------------------------------------#
 # Formatting constants
 # ---------------------------------------------------------------------------#
@@ -135,6 +137,8 @@ class QHATableFile():
               ):
         with open(outfile, 'wt', encoding='utf8') as f:
             totw, dataw = calc_space(len(y))
+            # Zero-point and static energies do not depend on x
+            z = np.broadcast_to(z, (len(x), len(y)))
             # Write the header
             f.write(fileHeader)
             f.write(nl)
-- 
2.43.0


From a9d816fe0f676d2cced45f276dfe7af11a9960ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 13/69] fix: export overwrote without asking a file named at
 the second prompt

---
 quantas/harmonic/utils/export.py | 4 ++--
 quantas/qha/utils/export.py      | 4 ++--
 quantas/soec/utils/export.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 7017dcb..0b56382 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -72,9 +72,9 @@ class QuantasHarmonicExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index d383a46..97490ad 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -72,9 +72,9 @@ class QuantasQHAExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 0d4498a..b2e9805 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -80,9 +80,9 @@ class QuantasSOECExport(object):
                     else:
                         data = np.hstack((data, self.data[key]['values'][:,1:]))
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
-- 
2.43.0


From 6ab2f405bc061e6118f63161e40d33aabc87926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 14/69] fix: export of a file that is not HDF5 ended with a
 traceback

---
 quantas/harmonic/utils/export.py | 3 +++
 quantas/qha/utils/export.py      | 3 +++
 quantas/soec/utils/export.py     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 0b56382..5eec382 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -33,6 +33,9 @@ class QuantasHarmonicExport(object):
         '''
         '''
         self.basename = os.path.splitext(filename)[0]
+        if not h5py.is_hdf5(filename):
+            self.error = 'This does not appear to be a Quantas output file'
+            return
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index 97490ad..ea93d60 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -33,6 +33,9 @@ class QuantasQHAExport(object):
         """
         """
         self.basename = os.path.splitext(filename)[0]
+        if not h5py.is_hdf5(filename):
+            self.error = 'This does not appear to be a Quantas output file'
+            return
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index b2e9805..df4ee02 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -32,6 +32,9 @@ class QuantasSOECExport(object):
         """
         """
         self.basename = os.path.splitext(filename)[0]
+        if not h5py.is_hdf5(filename):
+            self.error = 'This does not appear to be a Quantas output file'
+            return
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
-- 
2.43.0


From d6af6e947bb7c72a3c6758d532e0c0e763a3aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 15/69] fix: exporters shared their data with the previously
 loaded file

---
 quantas/harmonic/utils/export.py | 3 +++
 quantas/qha/utils/export.py      | 3 +++
 quantas/soec/utils/export.py     | 1 +
 3 files changed, 7 insertions(+)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 5eec382..c275323 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -32,6 +32,9 @@ class QuantasHarmonicExport(object):
     def load(self, filename):
         '''
         '''
+        self.x = {}
+        self.y = {}
+        self.data = {}
         self.basename = os.path.splitext(filename)[0]
         if not h5py.is_hdf5(filename):
             self.error = 'This does not appear to be a Quantas output file'
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index ea93d60..13814ed 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -32,6 +32,9 @@ class QuantasQHAExport(object):
     def load(self, filename):
         """
         """
+        self.x = {}
+        self.y = {}
+        self.data = {}
         self.basename = os.path.splitext(filename)[0]
         if not h5py.is_hdf5(filename):
             self.error = 'This does not appear to be a Quantas output file'
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index df4ee02..5517cb1 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -31,6 +31,7 @@ class QuantasSOECExport(object):
     def load(self, filename):
         """
         """
+        self.data = {}
         self.basename = os.path.splitext(filename)[0]
         if not h5py.is_hdf5(filename):
             self.error = 'This does not appear to be a Quantas output file'
-- 
2.43.0


From 4ac38fcb6831d2cd4df19ab9f95135c9881eb462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 16/69] fix: readers, generators and calculators shared data
 between instances

---
 quantas/IO/qha_writer.py   | 1 +
 quantas/core/calculator.py | 1 +
 quantas/core/reader.py     | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index e715339..d1cb906 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -38,6 +38,7 @@ class QHAInputCreator(object):
         """
         """
         self.interface_flag = interface
+        self.phondata = []
         return
 
     def read(self, filename, is_list, reference=0, use_symm=False):
diff --git a/quantas/core/calculator.py b/quantas/core/calculator.py
index 2d35f01..065cddc 100644
--- a/quantas/core/calculator.py
+++ b/quantas/core/calculator.py
@@ -120,6 +120,7 @@ class BasicCalculator(object):
 
     def __init__(self):
         """ Constructor for the basic calculator. """
+        self.warnings = []
         return
 
     def read_input(self, filename):
diff --git a/quantas/core/reader.py b/quantas/core/reader.py
index 3698aeb..06f73d4 100644
--- a/quantas/core/reader.py
+++ b/quantas/core/reader.py
@@ -13,6 +13,8 @@ This module contains a basic reader classes that can be used as a base for
 other more sophisticated ones.
 """
 
+from copy import deepcopy
+
 
 class BasicReader(object):
     """
@@ -68,6 +70,7 @@ class BasicReader(object):
             Path to the input file. If not None, the file is immediately read.
 
         """
+        self._data = deepcopy(self._data)
         if not isinstance(input_file, type(None)):
             self.load(input_file)
         return
-- 
2.43.0


From 7689b13762b3a5b0ad1f65fd9a1945b24a73c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 17/69] fix: tetragonal crystals were classified as trigonal,
 and signs of trigonal constants ignored

---
 quantas/soec/utils/symmetry.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quantas/soec/utils/symmetry.py b/quantas/soec/utils/symmetry.py
index c57ab32..5ffde4f 100644
--- a/quantas/soec/utils/symmetry.py
+++ b/quantas/soec/utils/symmetry.py
@@ -19,19 +19,19 @@ Cij_symmetry = {
                       [0, 0, 0, 0, 4, 0],
                       [0, 0, 0, 0, 0, 4]]),
 
-   'hexagonal': np.array([[1, 7, 8, 9, 10, 0],
-                          [7, 1, 8, 0,-9, 0],
+   'hexagonal': np.array([[1, 7, 8, 0, 0, 0],
+                          [7, 1, 8, 0, 0, 0],
                           [8, 8, 3, 0, 0, 0],
-                          [9, -9, 0, 4, 0, 0],
-                          [10, 0, 0, 0, 4, 0],
+                          [0, 0, 0, 4, 0, 0],
+                          [0, 0, 0, 0, 4, 0],
                           [0, 0, 0, 0, 0, 6]]),
 
-   'trigonal_high': np.array([[1, 7, 8, 9, 10, 0],
-                              [7, 1, 8, 0,-9, 0],
+   'trigonal_high': np.array([[1, 7, 8, 9, 0, 0],
+                              [7, 1, 8,-9, 0, 0],
                               [8, 8, 3, 0, 0, 0],
                               [9, -9, 0, 4, 0, 0],
-                              [10, 0, 0, 0, 4, 0],
-                              [0, 0, 0, 0, 0, 6]]),
+                              [0, 0, 0, 0, 4, 9],
+                              [0, 0, 0, 0, 9, 6]]),
 
    'trigonal_low': np.array([[1,  7,  8,  9,  10,  0 ],
                              [7,  1,  8, -9, -10,  0 ],
@@ -118,7 +118,7 @@ def run_check(m, symmetry):
         l = []
         for key in Cij_map.keys():
             # Collect the combinations
-            if Cij_map[key] == i:
+            if abs(Cij_map[key]) == i:
                 l.append(key)
         if len(l) != 0:
             if i == 0:
@@ -129,13 +129,15 @@ def run_check(m, symmetry):
                         continue
             else:
                 for k in it.combinations(l, 2):
-                    if abs(m[k[0]] - m[k[1]]) > tol:
+                    # Entries with opposite sign in the map are opposite
+                    sign = np.sign(Cij_map[k[0]]*Cij_map[k[1]])
+                    if abs(m[k[0]] - sign*m[k[1]]) > tol:
                         return False
                     else:
                         continue
 
-    # Additional check for hexagonal system
-    if symmetry == 'hexagonal':
+    # Additional check for hexagonal and trigonal systems
+    if symmetry in ['hexagonal', 'trigonal_high', 'trigonal_low']:
         if abs(m[5][5]-((m[0][0]-m[0][1])/2.)) > tol:
             return False
     return True
-- 
2.43.0


From a2b88b4afc49a4fbbdcfa207cffa3a9a29c79859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 18/69] fix: first axis of shear and Poisson extremes repeated
 the second axis

---
 quantas/soec/soec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6f49d0e..ef73020 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -420,8 +420,8 @@ class SOECCalculator(BasicCalculator):
             anisotropy = np.inf
         #
         # First (or Only) axis
-        minax1 = vector(*minval[0])
-        maxax1 = vector(*maxval[0])
+        minax1 = vector(*minval[0][:2])
+        maxax1 = vector(*maxval[0][:2])
         if dim == 2:
             minax2 = None
             maxax2 = None
-- 
2.43.0


From 2f36a8efe55d8d147b4363aca87a3da90d7b0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 19/69] fix: elastic report printed nan wave velocities when no
 density is given

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index ef73020..163b4b5 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -394,7 +394,7 @@ class SOECCalculator(BasicCalculator):
         for i in range(3):
             self.echo(sv.format(avgnames[i], *tuple(avg[i])))
         self.echo('')
-        if awv[0] != np.nan:
+        if not np.isnan(awv[0]):
             self.echo('Average (VRH) wave velocities')
             self.echo('  - Transversal  (Vs): {: 10.5f} km/s'.format(awv[0]))
             self.echo('  - Longitudinal (Vp): {: 10.5f} km/s'.format(awv[2]))
-- 
2.43.0


From 77ada78b03d7e87bad461676339df6ccaeb97fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 20/69] fix: mechanically unstable crystals were analysed as if
 they were stable

---
 quantas/soec/soec.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 163b4b5..282df53 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -179,7 +179,10 @@ class SOECCalculator(BasicCalculator):
             self.echo_debug('Input file correctly read')
             self._job = reader.jobname
             self.echo_debug('Job name set')
-            self._soec = SOEC(reader.stiffness, reader.density)
+            try:
+                self._soec = SOEC(reader.stiffness, reader.density)
+            except ValueError as error:
+                return 'SOEC {}'.format(error)
             self.echo_debug('SOEC object instantiated')
             self._system = check_symmetry(self._soec.stiffness)
             self.echo_debug('Crystal system: {}'.format(self._system))
@@ -233,7 +236,7 @@ class SOECCalculator(BasicCalculator):
         #
         # Calculate stiffness eigenvalues
         self.echo_debug(' - Calculation stiffness eigenvalues')
-        eigv = sorted(np.linalg.eig(self.soec.stiffness)[0])
+        eigv = sorted(np.linalg.eigvalsh(self.soec.stiffness))
         #
         # Report current data
         
@@ -245,11 +248,10 @@ class SOECCalculator(BasicCalculator):
         self._results['avg_wave_velocities'] = awv
         #
         # Check SOEC eigenvalues consistency
-        if any(eigv) <= 0:
-            msg = 'SOEC matrix is not definite positive, '+\
-            'crystal is mechanically unstable'
-            self.echo(msg)
-            self.echo('No further analysis will be performed.')
+        if min(eigv) <= 0:
+            self.error = 'SOEC matrix is not definite positive, '+\
+            'crystal is mechanically unstable\n'+\
+            'No further analysis will be performed.'
             return
         #
         # Calculate variations of the mechanical properties
-- 
2.43.0


From a3ba51953145bfe06f40705c34d173b9c86fef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 21/69] fix: elastic result file held zero-filled sections and
 a mislabelled compliance

---
 quantas/soec/soec.py         | 26 ++------------------------
 quantas/soec/utils/export.py |  4 ++++
 2 files changed, 6 insertions(+), 24 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 282df53..9cedc27 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -126,29 +126,7 @@ class SOECCalculator(BasicCalculator):
         results_dict = {
             'avgs': None,
             'eigv': None,
-            'polar': {
-                'xy': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'xz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'yz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    }
-                },
+            'polar': {},
             }
         return results_dict
 
@@ -544,7 +522,7 @@ It contains the results of the analysis of the second-order elastic constants
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
             dset = f.create_dataset('compliance', data=self.soec.compliance)
-            dset.attrs['unit'] = 'TPa^-1'
+            dset.attrs['unit'] = self._punit + '^-1'
             dset = f.create_dataset('averages', data=self.results['avgs'])
             dset.attrs['unit'] = self._punit
             dset = f.create_dataset('eigenvals', data=self.results['eigv'])
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 5517cb1..e8b7c3b 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -60,6 +60,10 @@ class QuantasSOECExport(object):
                     self.data[key] = {}
                     self.data[key]['values'] = f[key][:]
                     self.data[key]['unit'] = f[key].attrs['unit']
+
+            if len(self.data) == 0:
+                self.error = 'This Quantas SOEC output file does not contain '
+                self.error += 'polar properties to export'
         return
 
     def run(self):
-- 
2.43.0


From 922750b95756747b4535dd6b2e9315d55da876cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 22/69] fix: lower triangular elastic matrices were misread and
 misshapen ones accepted

---
 quantas/IO/soec_reader.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 580b39b..ddde716 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -124,27 +124,36 @@ class SOECInputFileReader(BasicReader):
             self.error += 'shape.\nPlease, check the input file and retry.'
             return
 
+        # ... take its form from the string matrix...
+        form = [ len(line.split()) for line in matstr ]
+        if form not in [[6,6,6,6,6,6], [6,5,4,3,2,1], [1,2,3,4,5,6]]:
+            self.error = 'The SOEC matrix does not have the expected (6, 6) '
+            self.error += 'shape.\nPlease, check the input file and retry.'
+            return
+
         # ... and convert it to float numbers
         matrix = np.zeros((6,6), dtype=np.float64)
         try:
             for i in range(6):
                 line = matstr[i].split()
                 n = len(line)
+                # Rows of the lower triangular form start on the left,
+                # whereas the upper triangular ones end on the right
+                shift = 0 if form == [1,2,3,4,5,6] else 6-n
                 for j in range(n):
-                    matrix[i][j+(6-n)] = line[j]
+                    matrix[i][j+shift] = line[j]
         except ValueError:
             self.error = 'SOEC components should be float numbers'
             return
         else:
-            # Take its form from the string matrix
-            form = []
-            for i in range(6):
-                form.append(len(matstr[i].split()))
             # Check matrix symmetry and make it 6x6
             if form == [6,5,4,3,2,1]:  # upper triangular
                 matrix = matrix + np.triu(matrix, 1).transpose()
             if form == [1,2,3,4,5,6]:  # lower triangular
                 matrix = matrix + np.tril(matrix, 1).transpose()
+            if not np.all(np.isfinite(matrix)):
+                self.error = 'SOEC components should be finite numbers'
+                return
             if linalg.norm(matrix - matrix.transpose()) > 1e-3:
                 self.error = 'The SOEC matrix should be symmetric '
                 self.error += 'or triangular'
-- 
2.43.0


From d7817b6c78de9e3740fa066308f7fda29016dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 23/69] fix: elastic input titles starting with a digit were
 taken for matrix rows

---
 quantas/IO/soec_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index ddde716..f927e2b 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -110,7 +110,7 @@ class SOECInputFileReader(BasicReader):
         # Does the first line contain the job name?
         line = data[0]
         try:
-            np.float64(line.strip()[0])
+            np.array(line.split(), dtype=np.float64)[0]
             start = 0
         except ValueError:
             self._data['job'] = line.rstrip()
-- 
2.43.0


From 8bc44e8e5a32a11fc95e741714a95da621caeb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 24/69] fix: inconsistent or incomplete phonon inputs were
 accepted or ended with a traceback

---
 quantas/IO/qha_reader.py | 65 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 67eaf38..45e117d 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -69,7 +69,10 @@ class QHAInputFileReader(BasicReader):
         return
 
     def _check(self):
-        if isinstance(self._data, type(None)):
+        if not isinstance(self.error, type(None)):
+            return
+        if not isinstance(self._data, dict):
+            self.error = 'The input file does not contain (Q)HA data'
             return
         if not 'volume' in self._data:
             self.error = 'No volume values in input file'
@@ -80,9 +83,63 @@ class QHAInputFileReader(BasicReader):
         if not 'phonon' in self._data:
             self.error = 'No phonon data in input file'
             return
+        for keyword in ['natom', 'supercell', 'qpoints']:
+            if not keyword in self._data:
+                self.error = 'No {} value in input file'.format(keyword)
+                return
+        try:
+            self._check_values()
+        except (AttributeError, IndexError, KeyError, OverflowError,
+                TypeError, ValueError):
+            self.error = 'Missing or wrong values in input file'
+        if not isinstance(self.error, type(None)):
+            return
         self.completed = True
         return
 
+    def _check_values(self):
+        """ Check that the values in the input are consistent. """
+        volume, energy = self.volume, self.energy
+        if volume.ndim != 1 or volume.shape[0] == 0:
+            self.error = 'Volume values should be a list of float numbers'
+        elif not np.all(np.isfinite(volume)) or np.any(volume <= 0.):
+            self.error = 'Volume values should be positive numbers'
+        elif energy.shape != volume.shape:
+            self.error = 'Number of energy and volume values does not match'
+        elif not np.all(np.isfinite(energy)):
+            self.error = 'Energy values should be finite numbers'
+        elif np.shape(self._data['supercell']) != (3, 3):
+            self.error = 'The supercell should be a (3, 3) matrix'
+        elif self.kpoints == 0:
+            self.error = 'The supercell matrix should not be singular'
+        elif self.natoms < 1:
+            self.error = 'The number of atoms should be positive'
+        elif len(self._data['phonon']) != self.qpoints:
+            self.error = 'Number of phonon entries and q-points does not match'
+        if not isinstance(self.error, type(None)):
+            return
+
+        for q in self._data['phonon']:
+            weight = self._get_float(q['weight'])
+            if not np.isfinite(weight) or weight < 0.:
+                self.error = 'Weights of the q-points should not be negative'
+                return
+            if len(q['band']) != self.natoms*3:
+                self.error = 'Number of bands should be 3 times that of atoms'
+                return
+            for band in q['band']:
+                frequency = self._get_float(band['frequency'])
+                if np.size(frequency) != self.nvol:
+                    self.error = 'Number of frequency and volume values does'
+                    self.error += ' not match'
+                    return
+                if not np.all(np.isfinite(frequency)):
+                    self.error = 'Frequency values should be finite numbers'
+                    return
+        if self.total_q_points <= 0.:
+            self.error = 'At least one q-point should have a positive weight'
+        return
+
     @staticmethod
     def _get_float(item):
         try:
@@ -99,7 +156,7 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_string(item):
-        return item.rstrip()
+        return str(item).rstrip()
 
     @property
     def data(self):
@@ -134,11 +191,11 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def volume(self):
-        return self._get_float(self._data['volume'])
+        return np.atleast_1d(self._get_float(self._data['volume']))
 
     @property
     def energy(self):
-        return self._get_float(self._data['energy'])
+        return np.atleast_1d(self._get_float(self._data['energy']))
 
     @property
     def frequencies(self):
-- 
2.43.0


From 233b30da5a6ba939cd8cc0fbee3a6aa2a8a9fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 25/69] fix: interactive EoS fitting crashed on NumPy without
 np.int and np.float

---
 quantas/eosfit/utils/interactive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index 0d41299..a8ad538 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -183,7 +183,7 @@ def set_eos_order(eos_key, default=2):
     if default not in choices:
         default = choices[0]
     echo('EOS ORDER')
-    selection = np.int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
+    selection = int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
                        default=default))
     echo('')
     return selection
@@ -314,7 +314,7 @@ def set_parameters(parameters, labels):
     echo('')
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
-            parameters[i] = np.float(prompt("  {: <8}".format(
+            parameters[i] = float(prompt("  {: <8}".format(
                 labels[i]), np.round(parameters[i], 5)))
     echo('')
     return parameters
-- 
2.43.0


From 4f8066b264f8961c1d361a88422076ac53a973e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 26/69] fix: eosfit -o ended with UnboundLocalError

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 5b248f3..8ef4da9 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -53,7 +53,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     if isinstance(outfile, type(None)):
         logfile = outbase + '.log'
     else:
-        logfile += '.log'
+        logfile = outfile + '.log'
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
-- 
2.43.0


From 0816eb0337f6aef739fc2daf77ce743bfb7520f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 27/69] fix: axial EoS fits tripled the guess in place, also
 when the modulus was fixed

---
 quantas/eosfit/utils/pv_eos.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index cfddc50..2f46a04 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -138,15 +138,11 @@ class EOS(object):
         # Check if there is a guess
         try:
             len(guess)
-            p0 = guess
+            p0 = np.array(guess, dtype=np.float64)
         except TypeError:
             #
             # Perform a guess on the parameters
             p0 = self.guess(V, P)
-        #
-        # Check if we're going to perform a linearized fit
-        if linear == True:
-            p0[0] = p0[0]*3.
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-- 
2.43.0


From ff8b5991ed288615803c573168c3b4af318113b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 28/69] fix: implied K'' of the Vinet EoS used 19/46 in place
 of 19/36

---
 quantas/eosfit/utils/pv_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index 2f46a04..d17315b 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -728,7 +728,7 @@ class Vinet(EOS):
                 p[1] = 3.
 
         # Kpp is always implied
-        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./46.))
+        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./36.))
             
         fV = 1. - (V/p[3])**(1./3.)
         eta = (1.5) * (p[1] - 1.)
-- 
2.43.0


From 567a9905e86c0b1975f60c4a1b818516c3f8cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 29/69] fix: pressures of third-order E-V EoS were calculated
 with a null K''

---
 quantas/qha/utils/ev_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 61fcb53..5f7cc91 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -375,5 +375,5 @@ class EnergyEOS(object):
         pv_pars[1] = ev_pars[2]
         pv_pars[3] = ev_pars[3]
         # Calculate pressures
-        pressures = eos.eos(pv_pars, V, order=3)
+        pressures = eos.eos(pv_pars, V, order=3, dofit=True)
         return pressures
-- 
2.43.0


From b65a6b6f6be827b7f9f31958a3db090bbc5d3ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 30/69] fix: calculated pressures of EoS fits were labelled as
 observed

---
 quantas/eosfit/eosfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/eosfit.py b/quantas/eosfit/eosfit.py
index 2297145..29c05b8 100644
--- a/quantas/eosfit/eosfit.py
+++ b/quantas/eosfit/eosfit.py
@@ -263,7 +263,7 @@ class EoSFitCalculator(BasicCalculator):
         self.echo('Calculated data:\n')
         self.echo('{: ^15} {: ^15} {: ^15} {: ^15} {: ^15}'.format(
             value_label, 'eps_'+value_name[0], 'Pressure (GPa)',
-            'P_obs (GPa)', 'eps_P'))
+            'P_calc (GPa)', 'eps_P'))
         self.echo('{0:-^15} {0:-^15} {0:-^15} {0:-^15} {0:-^15}'.format(''))
         for i in range(len(values)):
             line = ''
-- 
2.43.0


From 99c87454c0cadd4242033256f3e146b134c9e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 31/69] fix: EoS inputs with aliases, titles or errors were
 misread, hung or crashed

---
 quantas/IO/eos_reader.py | 52 ++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 85b29da..d360857 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -66,8 +66,6 @@ class EoSInputFileReader(BasicReader):
         'sigmac': ['sigmac', 'sigc'],
         }
 
-    _format = {}
-
     def __init__(self, eos_input):
         """
         Constructor method of the class.
@@ -79,6 +77,7 @@ class EoSInputFileReader(BasicReader):
             Path of the input file.
 
         """
+        self._format = {}
         BasicReader.__init__(self, eos_input)
         return
 
@@ -170,15 +169,16 @@ class EoSInputFileReader(BasicReader):
         with open(eos_input, 'r') as f:
             data = f.readlines()
 
+        title = None
         for i in range(len(data)):
             line = data[i]
             # If empty or commented (#) lines are found, skip them
-            if self.is_comment(line):
+            if self.is_comment(line) or i == title:
                 continue
 
             keyword = line.split()[0]
             if keyword.lower() == 'job':
-                self.set_job_name(data, i+1)
+                title = self.set_job_name(data, i+1)
             if keyword.lower() == 'format':
                 self.set_data_format(data, i+1)
             if keyword.lower() == 'data':
@@ -186,6 +186,9 @@ class EoSInputFileReader(BasicReader):
 
         if not isinstance(self.error, type(None)):
             self.completed = False
+        elif isinstance(self.pressure, type(None)):
+            self.error = 'Data (DATA keyword) not provided'
+            self.completed = False
         else:
             self.completed = True
         return
@@ -203,14 +206,20 @@ class EoSInputFileReader(BasicReader):
         idx: int
             Index of the line where the name of the job is supposed to be.
 
+        Returns
+        -------
+
+        int
+            Index of the line containing the name of the job.
+
         """
-        while self._data['job'] == 'Unknown':
+        while idx < len(inpdata):
             line = inpdata[idx].rstrip('\n')
-            if (len(line) == 0 or line.strip()[0] == '#'):
-                idx += 1
-            else:
+            if not self.is_comment(line):
                 self._data['job'] = line
-        return
+                break
+            idx += 1
+        return idx
 
     def set_data_format(self, inpdata, idx):
         """
@@ -229,6 +238,9 @@ class EoSInputFileReader(BasicReader):
         """
         found = False
         while not found:
+            if idx >= len(inpdata):
+                self.error = 'Data format (FORMAT keyword) not provided'
+                return
             line = inpdata[idx]
             if self.is_comment(line):
                 idx += 1
@@ -239,7 +251,7 @@ class EoSInputFileReader(BasicReader):
                 for i in range(len(dformat)):
                     for key, items in self._formats.items():
                         if dformat[i].lower() in items:
-                            self._format[dformat[i].lower()] = i
+                            self._format[key] = i
         return
 
     def set_data(self, inpdata, idx):
@@ -260,7 +272,7 @@ class EoSInputFileReader(BasicReader):
             self.error = 'Data format (FORMAT keyword) not provided'
             return
 
-        if self._format['p'] == None:
+        if not 'p' in self._format:
             self.error = 'No pressure data provided in input file'
             return
 
@@ -284,8 +296,22 @@ class EoSInputFileReader(BasicReader):
                 stop = True
                 continue
 
-            for quantity, n in self._format.items():
-                data[quantity].append(float(values[n]))
+            try:
+                for quantity, n in self._format.items():
+                    data[quantity].append(float(values[n]))
+            except IndexError:
+                self.error = 'Line {} contains less data than those declared '
+                self.error += 'by the FORMAT keyword'
+                self.error = self.error.format(idx+1)
+                return
+            except ValueError:
+                self.error = 'Data should be float numbers (line {})'
+                self.error = self.error.format(idx+1)
+                return
+
+        if len(data['p']) == 0 or not np.all(np.isfinite(list(data.values()))):
+            self.error = 'No data or not finite values in input file'
+            return
 
         for quantity in self._format:
             self._data[quantity] = np.asarray(data[quantity])
-- 
2.43.0


From cc37114d89c5966aba0a89713641a835cd22892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 32/69] fix: binary files and elastic inputs with a blank first
 line ended with a traceback

---
 quantas/IO/eos_reader.py  | 8 ++++++--
 quantas/IO/soec_reader.py | 8 ++++++--
 quantas/soec/soec.py      | 5 ++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index d360857..c2cc256 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -166,8 +166,12 @@ class EoSInputFileReader(BasicReader):
             Path to the EoS input file.
 
         """
-        with open(eos_input, 'r') as f:
-            data = f.readlines()
+        try:
+            with open(eos_input, 'r') as f:
+                data = f.readlines()
+        except UnicodeDecodeError:
+            self.error = 'The provided input is not a text file'
+            return
 
         title = None
         for i in range(len(data)):
diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index f927e2b..901afee 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -99,8 +99,12 @@ class SOECInputFileReader(BasicReader):
 
         """
 
-        with open(filename, 'r') as f:
-            data = f.readlines()
+        try:
+            with open(filename, 'r') as f:
+                data = f.readlines()
+        except UnicodeDecodeError:
+            self.error = 'The provided input is not a text file'
+            return
 
         if len(data) < 6:
             self.error = 'File length is too short to contain '
diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 9cedc27..b6df362 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -149,7 +149,10 @@ class SOECCalculator(BasicCalculator):
         
         self.echo('Reading input file: {0}'.format(filename))
         self.echo_debug('Instantiate file reader')
-        reader = SOECInputFileReader(filename)
+        try:
+            reader = SOECInputFileReader(filename)
+        except IndexError:
+            return 'The first line of the input file should not be blank'
         if not reader.completed:
             return reader.error
         else:
-- 
2.43.0


From 36046db631b14309f3fb505c08ba32b31e52d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 33/69] fix: CRYSTAL supercell outputs without phonon
 dispersion could not be read

---
 quantas/interfaces/crystal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 2027ef0..26cfe26 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -101,12 +101,14 @@ class CrystalPhononReader(BasicReader):
             self.dim = self.set_expansion(file)
             self._data['unitcell']['lattice'] = np.dot(
                 self._data['supercell']['lattice'], np.linalg.inv(self.dim))
-            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
-                          self.set_q_mesh(file)
-
         else:
             self.unitcell = self.set_wf_cell(file)
             self.supercell = self.set_wf_cell(file)
+
+        if self.supercell_on and self.scelphono_on:
+            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
+                          self.set_q_mesh(file)
+        else:
             self.qcoords = [[0., 0., 0.]]
             self.weights = [1]
         # Collect energy values and phonons
-- 
2.43.0


From ed88b721ec97f8854d7013acd97b1a97f5ee5baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 34/69] fix: truncated ab initio outputs hung the input
 generator or ended with a traceback

---
 quantas/IO/qha_writer.py      | 10 +++++++++-
 quantas/IO/soec_writer.py     |  8 +++++++-
 quantas/interfaces/crystal.py | 14 ++++++++++----
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index d1cb906..6bdcb71 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -11,6 +11,7 @@
 import os
 import numpy as np
 from copy import deepcopy
+from xml.etree.ElementTree import ParseError
 
 from click import echo
 from quantas.interfaces.crystal import CrystalPhononReader
@@ -63,7 +64,14 @@ class QHAInputCreator(object):
             echo('  - {} ...'.format(file), nl='')
 
             interface = self.interface_filter[self.interface_flag]
-            data = interface(file)
+            try:
+                data = interface(file)
+            except UnicodeDecodeError:
+                raise
+            except (AttributeError, IndexError, KeyError, TypeError,
+                    ValueError, ParseError):
+                error = 'File {} is incomplete or corrupted'.format(file)
+                return False, error
 
             if not data.completed:
                 return False, data.error
diff --git a/quantas/IO/soec_writer.py b/quantas/IO/soec_writer.py
index b06fdf1..49f839d 100644
--- a/quantas/IO/soec_writer.py
+++ b/quantas/IO/soec_writer.py
@@ -44,7 +44,13 @@ class SOECInputCreator(object):
             Path to the output file.
         """
         interface = self.interface_filter[self.interface_flag]
-        data = interface(filename)
+        try:
+            data = interface(filename)
+        except UnicodeDecodeError:
+            raise
+        except (IndexError, TypeError, ValueError):
+            error = "File '{}' is incomplete or corrupted".format(filename)
+            return False, error
 
         if not data.completed:
             return False, data.error
diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 26cfe26..fae9b64 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -130,6 +130,10 @@ class CrystalPhononReader(BasicReader):
         if not bool(self.phonons):
             self.error = 'No phonon data in {0}'.format(file)
             return
+        if self.error is None and len(self.phonons) != self.qpoints:
+            self.error = 'Incomplete phonon data in {0}'.format(file)
+        if self.error is not None:
+            return
         self.completed = True
         return
 
@@ -729,17 +733,15 @@ class CrystalPhononReader(BasicReader):
 
             if frequency_header in data[i]:
 
-                finished = False
                 band = np.zeros(self.nphonon, dtype=float)
                 line_counter = 0
                 freq_counter = 0
 
-                while not finished or freq_counter != self.nphonon:
+                while i + line_counter + 2 < len(data):
                     line = data[i + line_counter + 2].split()
 
                     if len(line) == 0:
-                        finished = True
-                        continue
+                        break
 
                     mode_n1 = int(line[0][:-1])
                     mode_n2 = int(line[1])
@@ -750,6 +752,10 @@ class CrystalPhononReader(BasicReader):
 
                     line_counter += 1
 
+                if freq_counter != self.nphonon:
+                    self.error = 'Incomplete phonon data in {0}'.format(file)
+                    return phonons
+
                 phonons[band_counter] = band
                 band_counter +=1
 
-- 
2.43.0


From f483d4aee9ddf98d019eca457eb1ded7e9de2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 35/69] fix: phonon files of different crystals were merged in
 one input

---
 quantas/IO/qha_writer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 6bdcb71..403f877 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -79,6 +79,13 @@ class QHAInputCreator(object):
             if self.interface_flag == 'crystal-qha':
                 self.phondata = data
             else:
+                for key in ('natom', 'nphonon', 'qpoints'):
+                    if self.phondata and \
+                            getattr(data, key) != getattr(self.phondata[0], key):
+                        error = 'File {} does not match '.format(file)
+                        error += 'the previous files: different '
+                        error += 'number of atoms, phonons or q-points'
+                        return False, error
                 self.phondata.append(data)
 
             if c == reference and self.interface_flag != 'crystal-qha':
-- 
2.43.0


From f6de75472ad4e9f334b9bf6dc1bf4f405400c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 36/69] fix: out of range references of the input generator
 ended with a traceback

---
 quantas/harmonic/commands/cmd_inpgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 78b49c3..d1535c5 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -91,7 +91,7 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
 
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
-        if ref > len(generator.phondata):
+        if ref < 0 or ref >= len(generator.phondata):
             echo_error(quantas_error(), bold=True)
             echo_error('Invalid reference provided')
             return
-- 
2.43.0


From ec3000c24aba099d050a3126c2a810fd0b7dd1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 37/69] fix: job titles with YAML syntax made the generated
 input unreadable

---
 quantas/IO/qha_writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 403f877..afc419a 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -9,6 +9,7 @@
 ##############################################################################
 
 import os
+import yaml
 import numpy as np
 from copy import deepcopy
 from xml.etree.ElementTree import ParseError
@@ -125,7 +126,8 @@ class QHAInputCreator(object):
         reference = self.phondata[ref]
         data = []
         
-        data.append('job: {}'.format(jobname))
+        data.append(yaml.safe_dump(
+            {'job': jobname}, width=float('inf'), allow_unicode=True).rstrip())
         data.append('natom:   %-7d' % reference.natom)
         data.append('supercell:')
         for i in range(3):
@@ -177,7 +179,8 @@ class QHAInputCreator(object):
         """
         n = self.phondata.points
         data = []
-        data.append('job: {}'.format(jobname))
+        data.append(yaml.safe_dump(
+            {'job': jobname}, width=float('inf'), allow_unicode=True).rstrip())
         data.append('natom:   %-7d' % self.phondata.natom)
         data.append('supercell:')
         for i in range(3):
-- 
2.43.0


From 2986fe69fce66dcfe4da467008ae45cea8043644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 38/69] fix: the log file overwrote an input file of the same
 name

---
 quantas/cmdline/utils/messages.py     | 29 +++++++++++++++++++++++++++
 quantas/eosfit/commands/cmd_eosfit.py |  3 +++
 quantas/harmonic/commands/cmd_ha.py   |  3 +++
 quantas/qha/commands/cmd_qha.py       |  3 +++
 quantas/soec/commands/cmd_soec.py     |  3 +++
 5 files changed, 41 insertions(+)

diff --git a/quantas/cmdline/utils/messages.py b/quantas/cmdline/utils/messages.py
index 0e215e4..659da11 100644
--- a/quantas/cmdline/utils/messages.py
+++ b/quantas/cmdline/utils/messages.py
@@ -90,6 +90,35 @@ def init_logfile(logfile=None):
     return
 
 
+def overwrites_input(logfile, filename):
+    """
+    Check if the log file would overwrite the input file.
+
+    Parameters
+    ----------
+
+    logfile: str
+        Path to the log file.
+
+    filename: str
+        Path to the input file.
+
+    Returns
+    -------
+
+    bool
+        True if the two paths refer to the same file. In this case, an error
+        message is also printed.
+
+    """
+    if not os.path.exists(logfile) or not os.path.samefile(logfile, filename):
+        return False
+    echo_error(quantas_error(), bold=True)
+    echo_error("The log file '{}' would overwrite the input file.\n"
+               'Please, choose another output name.'.format(logfile))
+    return True
+
+
 def echo(msg, logfile=None, silent=False, bold=False):
     """
     Print a message via the click.echo function to stdout and also to a log
diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 8ef4da9..dc3a9a7 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import overwrites_input
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -54,6 +55,8 @@ def eos_calculation(filename, outfile, punit, vunit):
         logfile = outbase + '.log'
     else:
         logfile = outfile + '.log'
+    if overwrites_input(logfile, filename):
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index d61461b..23ad530 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import overwrites_input
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -72,6 +73,8 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    if overwrites_input(logfile, filename):
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 23b161d..e698fac 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import overwrites_input
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -116,6 +117,8 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    if overwrites_input(logfile, filename):
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 26982f4..8e4480b 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import overwrites_input
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -64,6 +65,8 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    if overwrites_input(logfile, filename):
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
-- 
2.43.0


From ab217fc60b228e09bc2e331b824b7fc761e97913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 39/69] fix: the input generator overwrote existing files
 without asking

---
 quantas/harmonic/commands/cmd_inpgen.py | 6 ++++++
 quantas/soec/commands/cmd_inpgen.py     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index d1535c5..ed18de8 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -89,6 +89,12 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
         echo_error(error)
         return
 
+    if os.path.exists(outfile):
+        if not confirm('Output file {} exists. '
+                       'Would you like to overwrite it?'.format(outfile)):
+            echo('Input file not saved')
+            return
+
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
         if ref < 0 or ref >= len(generator.phondata):
diff --git a/quantas/soec/commands/cmd_inpgen.py b/quantas/soec/commands/cmd_inpgen.py
index d6bac18..8683e76 100644
--- a/quantas/soec/commands/cmd_inpgen.py
+++ b/quantas/soec/commands/cmd_inpgen.py
@@ -84,6 +84,12 @@ def soec_inpgen(filename, outfile, interface):
         echo_error(error)
         return
 
+    if os.path.exists(outfile):
+        if not confirm('Output file {} exists. '
+                       'Would you like to overwrite it?'.format(outfile)):
+            echo('Input file not saved')
+            return
+
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     msg = '\nPlease, enter a short description for the input file: '
     jobname = prompt(msg, default='Unknown', show_default=False)
-- 
2.43.0


From 6d4d5ed14023aa38e8dcee745e0b650b7c8d7e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 40/69] fix: VASP elastic moduli were not reordered to Voigt
 notation

---
 quantas/interfaces/vasp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index de57fb1..6ef0fe5 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -56,8 +56,9 @@ class VASPSOECReader(BasicReader):
                     self.error += 'Please, check the OUTCAR file'
                     return
 
-        self._data['stiffness'][[3, 5]] = self._data['stiffness'][[5, 3]]
-        self._data['stiffness'][:, [3, 5]] = self._data['stiffness'][:, [5, 3]]
+        # VASP order is XX, YY, ZZ, XY, YZ, ZX
+        order = [0, 1, 2, 4, 5, 3]
+        self._data['stiffness'] = self._data['stiffness'][order][:, order]
 
         self.completed = True
         return
@@ -133,8 +134,7 @@ class VASPSOECReader(BasicReader):
                 if soec_relaxed in line:
                     relaxed = True
                     relaxed_line = counter + 3
-                else:
-                    counter += 1
+                counter += 1
         if relaxed:
             return relaxed_line
         else:
-- 
2.43.0


From ac194921e88e6de480ecfc13644727936f296b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 41/69] fix: left-handed cells gave negative volumes and
 invalid YAML a traceback in the input generator

---
 quantas/interfaces/crystal.py | 15 ++++++++-------
 quantas/interfaces/phonopy.py |  5 +++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index fae9b64..8fdea6c 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -307,11 +307,11 @@ class CrystalPhononReader(BasicReader):
         """
         if self.supercell_on:
             if self.scelphono_on:
-                return np.linalg.det(self._data['unitcell']['lattice'])
+                return abs(np.linalg.det(self._data['unitcell']['lattice']))
             else:
-                return np.linalg.det(self._data['supercell']['lattice'])
+                return abs(np.linalg.det(self._data['supercell']['lattice']))
         else:
-            return np.linalg.det(self._data['unitcell']['lattice'])
+            return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -409,7 +409,7 @@ class CrystalPhononReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def qpoints(self):
@@ -1020,7 +1020,7 @@ class CrystalQHAReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def energy(self):
@@ -1037,7 +1037,8 @@ class CrystalQHAReader(BasicReader):
         """
         volumes = np.zeros(self.points, dtype=float)
         for i in range(self.points):
-            volumes[i] = np.linalg.det(self._data['unitcell'][i]['lattice'])
+            volumes[i] = abs(np.linalg.det(
+                self._data['unitcell'][i]['lattice']))
         return volumes / self.kpoints
 
     @property
@@ -1313,7 +1314,7 @@ class CrystalQHAReader(BasicReader):
         """
         indexes = []
         for i in range(len(cells)):
-            volume = np.linalg.det(cells[i]['lattice'])
+            volume = abs(np.linalg.det(cells[i]['lattice']))
             for j in range(len(cells)):
                 if np.isclose(volume, ordered_volumes[j]):
                     indexes.append(j)
diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30d130e..3ce9438 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -168,7 +168,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def volume(self):
-        return np.linalg.det(self._data['unitcell']['lattice'])
+        return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -209,8 +209,9 @@ class PhonopyReader(BasicReader):
         with open(file, 'r') as stream:
             try:
                 idata = yaml.safe_load(stream)
-            except yaml.YAMLError as exception:
+            except yaml.YAMLError as yaml_exception:
                 error = True
+                exception = str(yaml_exception)
             return error, exception, idata
 
     def set_displacements(self, idata):
-- 
2.43.0


From b1be2471ebea92260041502c970ef0f73702ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 42/69] fix: Kieffer entropy was not the one of its free energy
 and heat capacity

---
 quantas/qha/utils/kieffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index c4c38fe..b967d09 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -211,7 +211,7 @@ class Kieffer(object):
             # Calculate the first addendum
             num = np.power(np.arcsin(x/xi), 2.) *x
             den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            den *= np.exp(x) - 1.
             first_term = num / den
 
             # Calculate the second addendum
@@ -227,7 +227,7 @@ class Kieffer(object):
         wmin = 1.e-6
         wmax = xnti/temperature
         function  = lambda x: entropy_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, 0.999*wmax, epsrel=self.cutoff)
+        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
-- 
2.43.0


From f2bf82d873c751ed0ed38cb2e9b73ce059190d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 43/69] fix: compiled cofactor discarded its result

---
 quantas/utils/math/fast_math.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/utils/math/fast_math.pyx b/quantas/utils/math/fast_math.pyx
index 8c259f3..38034d9 100644
--- a/quantas/utils/math/fast_math.pyx
+++ b/quantas/utils/math/fast_math.pyx
@@ -129,5 +129,5 @@ cpdef cofactor(double[:,::1] mat):
     c[2][0] = m[0][1]*m[1][2] - m[0][2]*m[1][1]
     c[2][1] = m[0][2]*m[1][0] - m[0][0]*m[1][2]
     c[2][2] = m[0][0]*m[1][1] - m[0][1]*m[1][0]
-    return
+    return cof
 
-- 
2.43.0


From 57dc03b47ca7c894a8f266ee35cf2990316a246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 44/69] fix: azimuths of seismic directions were measured from
 the y axis

---
 quantas/seismic/utils/seismic_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 6f444dc..36d7cc5 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -434,7 +434,7 @@ class Seismic(object):
         x = self.direction[0]
         y = self.direction[1]
         z = self.direction[2]
-        self.phi = np.arctan2(x, y)
+        self.phi = np.arctan2(y, x)
         self.theta = np.arctan2(np.sqrt(y ** 2 + x ** 2), z)
 
         # Set the new Christoffel matrix
@@ -553,7 +553,7 @@ class Seismic(object):
             x = gdir[i][0]
             y = gdir[i][1]
             z = gdir[i][2]
-            gphi[i] = np.arctan2(x, y)
+            gphi[i] = np.arctan2(y, x)
             gtheta[i] = np.arctan2(np.sqrt(y**2 + x**2), z)
 
         # Calculate the powerflow angle
-- 
2.43.0


From d2c7dff4bf545bd3ce3d44847bd322e6002c9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 45/69] fix: empty or endless temperature and pressure ranges
 ended with a traceback

---
 quantas/cmdline/utils/general.py    | 9 +++++++++
 quantas/harmonic/commands/cmd_ha.py | 2 ++
 quantas/qha/commands/cmd_qha.py     | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/quantas/cmdline/utils/general.py b/quantas/cmdline/utils/general.py
index 1bf1170..3cdbcb0 100644
--- a/quantas/cmdline/utils/general.py
+++ b/quantas/cmdline/utils/general.py
@@ -59,6 +59,15 @@ class MostSimilarCommandGroup(click.Group):
         return None
 
 
+def check_range(ctx, param, value):
+    """ Check a range of values, provided as (min, max, step). """
+    minimum, maximum, step = value
+    if not step > 0. or not float('inf') > maximum - minimum >= 0.:
+        raise click.BadParameter(
+            'the range must have min <= max and a positive step.')
+    return value
+
+
 def print_version(ctx, param, value):
     """ Check the context and print Quantas version. """
     if not value or ctx.resilient_parsing:
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index 23ad530..d04d5b4 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_range
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -39,6 +40,7 @@ from ..harmonic import HACalculator
               'without extension.', default=None, metavar='out_file',
               show_default='Input file base name')
 @click.option('-T', '--temperature', nargs=3, type=float,
+              callback=check_range,
               metavar='min max step',
               help='Temperature range provided as a tuple.',
               default=(298.15, 298.15, 1.), show_default='(298.15, 298.15, 1.)')
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index e698fac..7fd6070 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_range
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -67,10 +68,12 @@ eos_functions = {
               help="Enable Kieffer's method for acoustic modes.",
               default=False)
 @click.option('-T', '--temperature', nargs=3, type=float,
+              callback=check_range,
               metavar='min max step',
               help='Temperature range provided as a tuple.',
               default=(298.15, 298.15, 1.), show_default='(298.15, 298.15, 1.)')
 @click.option('-P', '--pressure', nargs=3, type=float,
+              callback=check_range,
               metavar='min max step',
               help='Pressure range provided as a tuple.',
               default=(0., 0., 1.), show_default='(0., 0., 1.)')
-- 
2.43.0


From 9ba981d3c9fa7285bf9936f1d7272d99d6908299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 46/69] fix: polar sections of shear modulus and Poisson's
 ratio were up to 5 % off

---
 quantas/soec/utils/soec_obj.py | 63 ++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/quantas/soec/utils/soec_obj.py b/quantas/soec/utils/soec_obj.py
index 237b58b..d717e5d 100644
--- a/quantas/soec/utils/soec_obj.py
+++ b/quantas/soec/utils/soec_obj.py
@@ -11,7 +11,6 @@
 import math
 import numpy as np
 from numpy import linalg
-from scipy import optimize
 import itertools as it
 from click import progressbar
 
@@ -49,6 +48,31 @@ def vector(theta, phi, chi=None):
     return [ a, b, c ]
 
 
+def extreme_angles(func):
+    """
+    Angles where a quadratic form of the unit vector perpendicular to a
+    direction, :math:`a + b \\cos 2\\chi + c \\sin 2\\chi`, has its minimum and
+    its maximum.
+
+    Parameters
+    ----------
+
+    func: function
+        Function of the angle.
+
+    Returns
+    -------
+
+    tuple
+        Angles of the minimum and of the maximum.
+
+    """
+    f = [func(x) for x in (0., np.pi/4, np.pi/2)]
+    mean = (f[0] + f[2])/2
+    chi = np.arctan2(f[1] - mean, f[0] - mean)/2
+    return chi + np.pi/2, chi
+
+
 class SOEC(object):
     """
     This class holds all the information and methods to analyze the tensor
@@ -338,23 +362,32 @@ class SOEC(object):
         Vs = np.sqrt(1000.0*G/self.density)
         return np.array([Vs, Vs, Vp])
 
+    def shear_angles(self, x):
+        """
+        Third angles of the lowest and highest shear modulus for the direction
+        given by the first two angles.
+        """
+        chi = extreme_angles(
+            lambda z: 1/self.shear_modulus([x[0], x[1], z]))
+        return chi[1], chi[0]
+
+    def poisson_angles(self, x):
+        """
+        Third angles of the lowest and highest Poisson's ratio for the
+        direction given by the first two angles.
+        """
+        return extreme_angles(
+            lambda z: self.poisson_ratio([x[0], x[1], z]))
+
     def shear_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
-        def func1(z): return self.shear_modulus([x[0], x[1], z])
-        r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        def func2(z): return -self.shear_modulus([x[0], x[1], z])
-        r2 = optimize.minimize(func2, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        return (float(r1.fun), -float(r2.fun))
+        r1, r2 = [float(self.shear_modulus([x[0], x[1], z]))
+                  for z in self.shear_angles(x)]
+        return (r1, r2)
 
     def poisson_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
-        def func1(z): return self.poisson_ratio([x[0], x[1], z])
-        r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        def func2(z): return -self.poisson_ratio([x[0], x[1], z])
-        r2 = optimize.minimize(func2, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        return (min(0,float(r1.fun)), max(0,float(r1.fun)), -float(r2.fun))
+        r1, r2 = [float(self.poisson_ratio([x[0], x[1], z]))
+                  for z in self.poisson_angles(x)]
+        return (min(0, r1), max(0, r1), r2)
 
     def phase_velocity(self, angles):
         """
-- 
2.43.0


From 59c438f2e54073f9b667d073fab6b4848f7be289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 47/69] fix: the search of elastic extremes missed narrow
 minima and maxima

---
 quantas/soec/soec.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index b6df362..cd24c33 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -15,6 +15,7 @@ except ImportError:
     from time import clock
 
 import numpy as np
+from scipy import ndimage
 from scipy import optimize
 import h5py
 try:
@@ -52,7 +53,7 @@ tv = '    {:10}' + 3*' | {: ^22.4f}'                # Triple value
 hh = '    {:10}' + 3*' | {: ^10}  {: ^10}'          # Hexa header
 hv = '    {:10}' + 3*' | {: ^10.4f}  {: ^10.4f}'    # Hexa values
 
-def minimize(func, dim, method='fmin'):
+def minimize(func, dim, method='fmin', third=None):
     if dim == 2:
         r = ((0, np.pi), (0, np.pi))
         n = 25
@@ -61,7 +62,24 @@ def minimize(func, dim, method='fmin'):
         r = ((0, np.pi), (0, np.pi), (0, np.pi))
         n = 10
         x0 = [1., 1., 1.]
-    if method == 'fmin':
+    if method == 'fmin' and third is not None:
+        # The best third angle is known for each pair of the other two
+        def angles(x): return [x[0], x[1], third(x)]
+        x, value = minimize(lambda x: func(angles(x)), 2)
+        return angles(x), value
+    elif method == 'fmin' and dim == 2:
+        # Refine the lowest local minima of the grid, and not just its lowest
+        # point, because the global minimum may be narrow
+        grid = optimize.brute(func, r, Ns = n, full_output = True,
+                              finish = None)
+        near = ndimage.minimum_filter(grid[3], size=3, mode='nearest')
+        starts = np.argwhere(grid[3] == near)
+        starts = sorted(starts, key=lambda s: grid[3][tuple(s)])[:5]
+        found = [optimize.fmin(func, grid[2][(slice(None),) + tuple(s)],
+                               full_output=True, disp=False)[0:2]
+                 for s in starts]
+        return min(found, key=lambda f: f[1])
+    elif method == 'fmin':
         return optimize.brute(func, r, Ns = n, full_output = True,
                               finish = optimize.fmin)[0:2]
     elif method == 'bh':
@@ -69,8 +87,8 @@ def minimize(func, dim, method='fmin'):
         return [ res.x, res.fun ]
 
 
-def maximize(func, dim):
-    res = minimize(lambda x: -func(x), dim)
+def maximize(func, dim, third=None):
+    res = minimize(lambda x: -func(x), dim, third=third)
     return (res[0], -res[1])
 
 
@@ -388,13 +406,13 @@ class SOECCalculator(BasicCalculator):
         self.echo('')
         return
 
-    def directional_variation(self, func, dim):
+    def directional_variation(self, func, dim, third=(None, None)):
         """
         """
         #
         # Minimum and maximum value
-        minval = minimize(func, dim)
-        maxval = maximize(func, dim)
+        minval = minimize(func, dim, third=third[0])
+        maxval = maximize(func, dim, third=third[1])
         #
         # Anisotropy
         if minval[1] > 0.:
@@ -425,8 +443,12 @@ class SOECCalculator(BasicCalculator):
     def dual_vector_variation(self):
         """
         """
-        G_var = self.directional_variation(self.soec.shear_modulus, 3)
-        Nu_var = self.directional_variation(self.soec.poisson_ratio, 3)
+        G_var = self.directional_variation(
+            self.soec.shear_modulus, 3,
+            [lambda x, i=i: self.soec.shear_angles(x)[i] for i in (0, 1)])
+        Nu_var = self.directional_variation(
+            self.soec.poisson_ratio, 3,
+            [lambda x, i=i: self.soec.poisson_angles(x)[i] for i in (0, 1)])
         return G_var, Nu_var
 
     def phase_velocity_variation(self):
-- 
2.43.0


From 381804f27ae0467b969e35c22924a7ea3a21c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 48/69] fix: the diagonal of lower triangular elastic matrices
 was doubled

---
 quantas/IO/soec_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 901afee..551a2b2 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -154,7 +154,7 @@ class SOECInputFileReader(BasicReader):
             if form == [6,5,4,3,2,1]:  # upper triangular
                 matrix = matrix + np.triu(matrix, 1).transpose()
             if form == [1,2,3,4,5,6]:  # lower triangular
-                matrix = matrix + np.tril(matrix, 1).transpose()
+                matrix = matrix + np.tril(matrix, -1).transpose()
             if not np.all(np.isfinite(matrix)):
                 self.error = 'SOEC components should be finite numbers'
                 return
-- 
2.43.0


From bef1dfacb2d30c3a38c17cd9f359b9591d8842af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 49/69] fix: QHA ended with a traceback when the EoS fit of
 static energies failed

---
 quantas/qha/qha.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index b36d3da..1a122e0 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -370,9 +370,17 @@ class QHACalculator(BasicCalculator):
             )
         self.echo('')
         self.echo('Volume and energy values:\n')
-        if self.eos_minimization.is_on():
-            eos_pars, eos_errs = self.find_eos_minimum(
-                self.volume, self.static_energy, 0.)
+        eos_fitted = self.eos_minimization.is_on()
+        if eos_fitted:
+            try:
+                eos_pars, eos_errs = self.find_eos_minimum(
+                    self.volume, self.static_energy, 0.)
+            except RuntimeError as exc:
+                self.echo_warning(
+                    'WARNING! EoS fitting of static energy vs volume data '
+                    'failed:\n{0}\n'.format(exc))
+                eos_fitted = False
+        if eos_fitted:
             eos = EnergyEOS()
             eos_pars[1] = energy_to_pressure(
                 eos_pars[1], self._eunit, self._vunit, self._punit)
@@ -390,7 +398,7 @@ class QHACalculator(BasicCalculator):
             self.echo(' {: 15.3f} {: ^15.6f} {: ^30.12e}'.format(
                 pressures[i], self.volume[i], self.static_energy[i]))
 
-        if self.eos_minimization.is_on():
+        if eos_fitted:
             self.echo('')
             self.echo('EoS fitting parameters for static energy vs volume data:')
             for i in range(len(eos_pars)):
-- 
2.43.0


From f29578f9eb7881a414e05b820ecad2641c59cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 50/69] fix: temperatures below absolute zero were accepted or
 ended with a traceback

---
 quantas/harmonic/harmonic.py | 2 ++
 quantas/qha/qha.py           | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index 4d70795..9e4cd8a 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -152,6 +152,8 @@ class HACalculator(BasicCalculator):
 
         if not data.completed:
             return data.error
+        if np.any(ct(self.temperature, self._tunit, 'K') < 0.):
+            return 'Temperature values should not be below absolute zero'
 
         self.input = data
         return None
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 1a122e0..8869791 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -341,6 +341,9 @@ class QHACalculator(BasicCalculator):
             error = 'Insufficient number of volumes for QHA, at least' +\
                     ' 4 points are required'
             return error
+        if np.any(convert_temperature(
+                self.temperature, self._tunit, 'K') < 0.):
+            return 'Temperature values should not be below absolute zero'
 
         self.input = data
         return
-- 
2.43.0


From a531a982317f42be592479cb343958defdb9f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 51/69] fix: null or negative resolutions of soec figures ended
 with a traceback

---
 quantas/soec/commands/cmd_soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 8e4480b..a45326c 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -46,7 +46,7 @@ from ..soec import SOECCalculator
 @click.option('-p', '--plot', help='Create polar plots of the results.',
               is_flag=True, default=False)
 @click.option('--dpi', help='Resolution (DPI) of the output figures.',
-              default=80, show_default=80)
+              type=click.IntRange(min=1), default=80, show_default=80)
 @click.option('-q', '--quiet', 'silent', is_flag=True, default=False,
               help='Output will not be printed on screen.',
               )
-- 
2.43.0


From cf2372b6fd8c982badab2c228453bceddccb6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 52/69] fix: a wrong value for an EoS parameter ended the
 session with a traceback

---
 quantas/eosfit/utils/interactive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index a8ad538..e4b1cca 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -315,7 +315,7 @@ def set_parameters(parameters, labels):
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
             parameters[i] = float(prompt("  {: <8}".format(
-                labels[i]), np.round(parameters[i], 5)))
+                labels[i]), np.round(parameters[i], 5), type=float))
     echo('')
     return parameters
 
-- 
2.43.0


From 4e3efea6f66a8a76feff5bf235c6f542e84b9043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 53/69] fix: EoS fitting of a single point or of constant data
 ended with a traceback

---
 quantas/eosfit/commands/cmd_eosfit.py | 5 +++++
 quantas/eosfit/eosfit.py              | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index dc3a9a7..b46f1d0 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -86,6 +86,11 @@ def eos_calculation(filename, outfile, punit, vunit):
     calculator.report_input_data()
     calculator.run()
 
+    if not calculator.completed:
+        echo_error(quantas_error(), logfile, bold=True)
+        echo_error(calculator.error, logfile)
+        return
+
     echo_highlight(biblio_header(), logfile)
     echo_highlight(quantas_citation(), logfile)
     echo_highlight(eos_citation(), logfile)
diff --git a/quantas/eosfit/eosfit.py b/quantas/eosfit/eosfit.py
index 29c05b8..b5a10c3 100644
--- a/quantas/eosfit/eosfit.py
+++ b/quantas/eosfit/eosfit.py
@@ -162,7 +162,13 @@ class EoSFitCalculator(BasicCalculator):
                 change_eos = False
 
                 if do_init_guess:
-                    guess = eos.guess(values, self.input.pressure)
+                    try:
+                        guess = eos.guess(values, self.input.pressure)
+                    except np.linalg.LinAlgError:
+                        self.error = '{} data are not suitable '.format(
+                            data_name)
+                        self.error += 'for EoS fitting'
+                        return
                     do_init_guess = False
 
                 while not change_eos:
-- 
2.43.0


From f50081c07809fed3c0285d53c8b7ac3e10f08e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 54/69] fix: outputs that could not be written ended with a
 traceback

---
 quantas/cmdline/utils/general.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/quantas/cmdline/utils/general.py b/quantas/cmdline/utils/general.py
index 3cdbcb0..8202556 100644
--- a/quantas/cmdline/utils/general.py
+++ b/quantas/cmdline/utils/general.py
@@ -10,6 +10,7 @@
 
 import click
 import difflib
+import errno
 
 from .messages import quantas_title
 from .messages import quantas_error
@@ -58,6 +59,20 @@ class MostSimilarCommandGroup(click.Group):
 
         return None
 
+    def invoke(self, ctx):
+        """
+        Override the default click.Group invoke in order to report files that
+        could not be read or written.
+        """
+        try:
+            return click.Group.invoke(self, ctx)
+        except OSError as exc:
+            if exc.errno == errno.EPIPE:
+                raise
+            echo_error(quantas_error(), bold=True)
+            echo_error(str(exc))
+            ctx.exit(1)
+
 
 def check_range(ctx, param, value):
     """ Check a range of values, provided as (min, max, step). """
-- 
2.43.0


From 91c7bfbf6df1ec6972efb1d552e3025ab743e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 55/69] fix: refuse EoS data without volume or axis values

The documentation requires at least one of them, but a table of pressures
alone was accepted as valid.
---
 quantas/IO/eos_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index c2cc256..9070572 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -280,6 +280,10 @@ class EoSInputFileReader(BasicReader):
             self.error = 'No pressure data provided in input file'
             return
 
+        if not any(quantity in self._format for quantity in 'vabc'):
+            self.error = 'No volume or axis data provided in input file'
+            return
+
         data = {}
         for quantity in self._format:
             data[quantity] = []
-- 
2.43.0


From f21424cbdb66a260de9a0cef81789e36af721a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 56/69] fix: refuse EoS values on the line of the DATA keyword

They were silently dropped, so that the first row of the table was lost.
---
 quantas/IO/eos_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 9070572..a6341a3 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -186,6 +186,9 @@ class EoSInputFileReader(BasicReader):
             if keyword.lower() == 'format':
                 self.set_data_format(data, i+1)
             if keyword.lower() == 'data':
+                if not self.is_comment(line.strip()[4:]):
+                    self.error = 'Data should begin in the line after DATA'
+                    break
                 self.set_data(data, i)
 
         if not isinstance(self.error, type(None)):
-- 
2.43.0


From bc72b9970fb98f5c88b4edf84107da3d7834941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 57/69] fix: density in SOEC inputs

A density after an empty line was ignored, while negative and not finite
values were accepted as valid.
---
 quantas/IO/soec_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 551a2b2..deb9f2a 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -167,14 +167,17 @@ class SOECInputFileReader(BasicReader):
                 self._data['stiffness'] = matrix.copy()
 
         # Is the density present?
-        dline = start+6
+        density = ' '.join(data[start+6:]).split()
         try:
-            self._data['density'] = np.float64(data[dline].split()[0])
+            self._data['density'] = np.float64(density[0])
         except IndexError:
             pass
         except ValueError:
             self.error = 'Density value should be a float number'
             self.completed = False
             return
+        if not np.isfinite(self.density) or self.density < 0.:
+            self.error = 'Density value should be a positive number'
+            return
         self.completed = True
         return
-- 
2.43.0


From 5ebe7735714629ca51da8773e8a52207ff663a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 58/69] fix: read all the values of (Q)HA arrays given as text

Only the first character of a string, or the first item of a list of strings,
was read: the rest of the values was silently dropped.
---
 quantas/IO/qha_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 45e117d..19ab072 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -145,7 +145,8 @@ class QHAInputFileReader(BasicReader):
         try:
             return np.float64(item)
         except ValueError:
-            return np.array(item[0].split(), dtype=np.float64)
+            text = item if isinstance(item, str) else ' '.join(item)
+            return np.array(text.split(), dtype=np.float64)
 
     @staticmethod
     def _get_int(item):
-- 
2.43.0


From d15618ba2f58f8294b0cbf0ef51971ac6bf590f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 59/69] fix: refuse values of the wrong type in (Q)HA inputs

Fractional atom numbers, q-point numbers and supercells were truncated,
boolean values taken as numbers, and nested lists ended with a traceback.
---
 quantas/IO/qha_reader.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 19ab072..367bdea 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -110,6 +110,8 @@ class QHAInputFileReader(BasicReader):
             self.error = 'Energy values should be finite numbers'
         elif np.shape(self._data['supercell']) != (3, 3):
             self.error = 'The supercell should be a (3, 3) matrix'
+        elif np.any(np.mod(self._data['supercell'], 1) != 0.):
+            self.error = 'The supercell should contain integer numbers'
         elif self.kpoints == 0:
             self.error = 'The supercell matrix should not be singular'
         elif self.natoms < 1:
@@ -121,6 +123,9 @@ class QHAInputFileReader(BasicReader):
 
         for q in self._data['phonon']:
             weight = self._get_float(q['weight'])
+            if np.ndim(weight) != 0:
+                self.error = 'Weights of the q-points should be numbers'
+                return
             if not np.isfinite(weight) or weight < 0.:
                 self.error = 'Weights of the q-points should not be negative'
                 return
@@ -129,7 +134,7 @@ class QHAInputFileReader(BasicReader):
                 return
             for band in q['band']:
                 frequency = self._get_float(band['frequency'])
-                if np.size(frequency) != self.nvol:
+                if np.atleast_1d(frequency).shape != (self.nvol,):
                     self.error = 'Number of frequency and volume values does'
                     self.error += ' not match'
                     return
@@ -142,18 +147,21 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_float(item):
+        values = item if isinstance(item, list) else [item]
+        if any(isinstance(value, bool) for value in values):
+            raise TypeError('Boolean values are not numbers')
         try:
             return np.float64(item)
         except ValueError:
             text = item if isinstance(item, str) else ' '.join(item)
             return np.array(text.split(), dtype=np.float64)
 
-    @staticmethod
-    def _get_int(item):
-        try:
-            return np.int64(item)
-        except ValueError:
-            return np.array(item[0].split(), dtype=np.int64)
+    @classmethod
+    def _get_int(cls, item):
+        value = cls._get_float(item)
+        if np.ndim(value) != 0 or value != np.int64(value):
+            raise ValueError('{} is not an integer number'.format(item))
+        return np.int64(value)
 
     @staticmethod
     def _get_string(item):
-- 
2.43.0


From ef0da48904f92c1d9a26cd4ab9e716433b86c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 60/69] fix: wrong YAML scalars in (Q)HA inputs

Dates and tagged numbers with impossible values ended with a traceback.
---
 quantas/IO/qha_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 367bdea..3fdef1d 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -65,6 +65,8 @@ class QHAInputFileReader(BasicReader):
                     self.error += '\n\nPlease, correct data and retry.'
             except UnicodeDecodeError:
                 self.error = "The provided input is not a YAML file."
+            except (OverflowError, RecursionError, ValueError):
+                self.error = 'Error in parsing YAML file: wrong values.'
         self._check()
         return
 
-- 
2.43.0


From ae736c8be6948308937415a9ce193bea863345de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 61/69] fix: incomplete lattice or supercell matrices in
 phonopy files

Generating an input from them ended with a traceback.
---
 quantas/interfaces/phonopy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 3ce9438..6ad68aa 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -114,6 +114,9 @@ class PhonopyReader(BasicReader):
             self.error = exception
             return
         self.supercell = self.set_displacements(dispdata)
+        if np.shape(self.dim) != (3, 3) or np.shape(self.lattice) != (3, 3):
+            self.error = 'Lattice and supercell should be (3, 3) matrices'
+            return
 
         self.set_phonons(idata)
 
-- 
2.43.0


From 66692f1c44ac5d8a8b6cebd38083047feb045823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 62/69] fix: VASP xml outputs without energy

The energy of the cell was silently set to zero.
---
 quantas/interfaces/phonopy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 6ad68aa..2eefb42 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -93,10 +93,15 @@ class PhonopyReader(BasicReader):
         vasprun = os.path.splitext(file)[0] + '.xml'
         if os.path.exists(vasprun):
             root = ET.parse(vasprun).getroot()
-            energy_results = root.findall('calculation/energy/i')
-            for energy_elem in energy_results:
-                if energy_elem.attrib['name'] == 'e_wo_entrp':
-                    self._data['energy'] = float(energy_elem.text)
+            energy_results = [
+                energy_elem for energy_elem in
+                root.findall('calculation/energy/i')
+                if energy_elem.attrib['name'] == 'e_wo_entrp'
+                ]
+            if len(energy_results) == 0:
+                self.error = 'Energy not found in {}'.format(vasprun)
+                return
+            self._data['energy'] = float(energy_results[-1].text)
 
         if os.path.exists(file):
             yaml_error, exception, idata = self.load_yaml(file)
-- 
2.43.0


From 67c74ebe86f18d70a17659b657f16cd0d2f48bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 63/69] fix: CRYSTAL QHA outputs with missing geometries

Generating an input from them ended with a traceback.
---
 quantas/interfaces/crystal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 8fdea6c..0071d9d 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -851,6 +851,10 @@ class CrystalQHAReader(BasicReader):
         self.qpoints, self.qcoords, self.weights = self.set_dummy_qmesh()
         ordered_volumes = self.set_volume(file)
         cells = self.set_unit_cells(file)
+        if len(cells) != self.points:
+            self.error = 'The number of optimized geometries does not match '
+            self.error += 'that of the volumes'
+            return
         self._data['unitcell'] = self.set_ordered_cells(cells,
                                                         ordered_volumes)
 
-- 
2.43.0


From 30680a476bd8d22fdb4b2a173d488795f1ca01dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 64/69] fix: refuse an equation of state fit that ODRPACK did
 not perform

With fewer data than free parameters the uninitialised output was printed
as the results of the fit.
---
 quantas/eosfit/eosfit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantas/eosfit/eosfit.py b/quantas/eosfit/eosfit.py
index b5a10c3..a22613e 100644
--- a/quantas/eosfit/eosfit.py
+++ b/quantas/eosfit/eosfit.py
@@ -182,6 +182,11 @@ class EoSFitCalculator(BasicCalculator):
                         sigmaV=weights[1], sigmaP=weights[0], order=order,
                         linear=linearized, fixed=fix
                         )
+                    # ODRPACK refused the problem: nothing was calculated
+                    if results.info >= 10000:
+                        self.error = '{} data cannot be fitted: {}'.format(
+                            data_name, '; '.join(results.stopreason))
+                        return
 
                     self.report_fit(
                         results, values, data_name, eos.__repr__(), order,
-- 
2.43.0


From 0f06810e4d0bb77ca1a55d48086ad8fb60b89f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 65/69] fix: integrate Kieffer's acoustic terms over the angle
 of the dispersion

At low temperature the heat capacity was NaN (overflow of the exponential)
and free energy and entropy lost the peak of the integrand; for very low
frequencies the lower limit cut part of the spectrum away.
---
 quantas/qha/utils/kieffer.py | 61 ++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index b967d09..4b982a7 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -84,22 +84,24 @@ class Kieffer(object):
             value += self._helmholtz_integral(temperature, acofreq)
         return value
 
+    def _integrate(self, function, xi):
+        """ Integrate a function of the angle arcsin(x/xi), along which the
+        sine dispersion has no singularity. Terms with x > 100 are null.
+        """
+        upper = np.arcsin(min(1., 100./xi))
+        return quad(function, 0., upper, epsabs=0., epsrel=self.cutoff)[0]
+
     def _helmholtz_integral(self, temperature, xnti):
         """
         """
-        def helmholtz_function(x, temperature, xnti):
-            xi = xnti / temperature
-            num = np.power((np.arcsin(x/xi)),2)*np.log(1-np.exp(-x))
-            den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            value = num / den
-            return value
+        def helmholtz_function(theta, temperature, xnti):
+            x = xnti / temperature * np.sin(theta)
+            return np.power(theta, 2.)*np.log(-np.expm1(-x))
 
         if temperature == 0.:
             return 0.
-        wmin = 1.e-6
-        wmax = xnti/temperature
         function  = lambda x: helmholtz_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
+        integral = self._integrate(function, xnti/temperature)
         factor = 3 * temperature * NA * kb * np.power(2./np.pi, 3.)
 
         return integral * factor
@@ -128,15 +130,16 @@ class Kieffer(object):
     def _heat_capacity_integral(self, temperature, xnti):
         """
         """
-        def heat_capacity_function(x, temperature, xnti):
+        def heat_capacity_function(theta, temperature, xnti):
             """ Function for the acoustic contribution to the heat
             capacity according to the Kieffer's model.
 
             Parameters
             ----------
 
-            x: float
-                Current value of the term hv_i/(k_B T).
+            theta: float
+                Angle whose sine is the ratio between the current and the
+                maximum value of the term hv_i/(k_B T).
             temperature: float
                 Temperature value (in K).
             xnti: float
@@ -147,20 +150,16 @@ class Kieffer(object):
             value: float
                 Heat capacity value.
             """
-            xi = xnti / temperature
-            num = np.power(np.arcsin(x/xi), 2.) * np.power(x, 2.)
-            num *= np.exp(x)
-            den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            x = xnti / temperature * np.sin(theta)
+            num = np.power(theta, 2.) * np.power(x, 2.) * np.exp(-x)
+            den = np.power(np.expm1(-x), 2.)
             value = num / den
             return value
 
         if temperature == 0.:
             return 0.
-        wmin = 1.e-6
-        wmax = xnti/temperature
         function  = lambda x: heat_capacity_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
+        integral = self._integrate(function, xnti/temperature)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
@@ -188,15 +187,16 @@ class Kieffer(object):
     def _entropy_integral(self, temperature, xnti):
         """
         """
-        def entropy_function(x, temperature, xnti):
+        def entropy_function(theta, temperature, xnti):
             """ Function for the acoustic contribution to the entropy
             according to the Kieffer's model.
 
             Parameters
             ----------
 
-            x: float
-                Current value of the term hv_i/(k_B T).
+            theta: float
+                Angle whose sine is the ratio between the current and the
+                maximum value of the term hv_i/(k_B T).
             temperature: float
                 Temperature value (in K).
             xnti: float
@@ -207,27 +207,20 @@ class Kieffer(object):
             value: float
                 Entropy value.
             """
-            xi = xnti / temperature
+            x = xnti / temperature * np.sin(theta)
             # Calculate the first addendum
-            num = np.power(np.arcsin(x/xi), 2.) *x
-            den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.exp(x) - 1.
-            first_term = num / den
+            first_term = np.power(theta, 2.) * x / np.expm1(x)
 
             # Calculate the second addendum
-            num = np.power(np.arcsin(x/xi), 2.)
-            den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            second_term = num * np.log(1. - np.exp(-x)) / den
+            second_term = np.power(theta, 2.) * np.log(-np.expm1(-x))
 
             value = first_term - second_term
             return value
 
         if temperature == 0.:
             return 0.
-        wmin = 1.e-6
-        wmax = xnti/temperature
         function  = lambda x: entropy_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
+        integral = self._integrate(function, xnti/temperature)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
-- 
2.43.0


From 0bc918e40d869bdefa3c4b132427ba1aa91664ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 66/69] fix: count the k-points sampled by a left-handed
 supercell

---
 quantas/IO/qha_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 3fdef1d..f52f010 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -186,7 +186,7 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['supercell']),0))
+        return int(np.around(abs(np.linalg.det(self._data['supercell'])), 0))
 
     @property
     def qpoints(self):
-- 
2.43.0


From 5385c81a3905ebfd9dbf38ec697b3e902e9ded23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 67/69] fix: elastic inputs generated with a blank or numeric
 title could not be read back

---
 quantas/IO/soec_writer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantas/IO/soec_writer.py b/quantas/IO/soec_writer.py
index 49f839d..a1de730 100644
--- a/quantas/IO/soec_writer.py
+++ b/quantas/IO/soec_writer.py
@@ -75,6 +75,14 @@ class SOECInputCreator(object):
 
         """
         data = []
+        # The first line is read as a title only when it is not a number
+        if not jobname.strip():
+            jobname = 'Unknown'
+        try:
+            [float(word) for word in jobname.split()]
+            jobname = 'Job ' + jobname.strip()
+        except ValueError:
+            pass
         data.append(jobname)
         for i in range(6):
             soec_line = ''
-- 
2.43.0


From bc50c284b2d8f506f435b22c167873154a4d1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:35 +0000
Subject: [PATCH 68/69] fix: the search for the extreme elastic moduli spent
 its starts on the poles

---
 quantas/soec/soec.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index cd24c33..0e08442 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -69,12 +69,15 @@ def minimize(func, dim, method='fmin', third=None):
         return angles(x), value
     elif method == 'fmin' and dim == 2:
         # Refine the lowest local minima of the grid, and not just its lowest
-        # point, because the global minimum may be narrow
+        # point, because the global minimum may be narrow. Adjoining points of
+        # the same value (as at the poles) count as one minimum.
         grid = optimize.brute(func, r, Ns = n, full_output = True,
                               finish = None)
         near = ndimage.minimum_filter(grid[3], size=3, mode='nearest')
-        starts = np.argwhere(grid[3] == near)
-        starts = sorted(starts, key=lambda s: grid[3][tuple(s)])[:5]
+        areas, count = ndimage.label(
+            grid[3] <= near + 1e-9 * np.abs(near), np.ones((3, 3)))
+        starts = ndimage.minimum_position(grid[3], areas, range(1, count + 1))
+        starts = sorted(starts, key=lambda s: grid[3][s])[:8]
         found = [optimize.fmin(func, grid[2][(slice(None),) + tuple(s)],
                                full_output=True, disp=False)[0:2]
                  for s in starts]
-- 
2.43.0


From e1aff1f5863d8fd49c11afedaf07caa8993cd870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:31 +0000
Subject: [PATCH 69/69] fix: axial equations of state start from a modulus
 derivative in axial units

The starting K' = 4 is that of a volume; the derivative of an axial modulus
is three times larger.  Fourth-order Tait fits of axial data stopped far from
the solution.
---
 quantas/eosfit/eosfit.py       | 3 ++-
 quantas/eosfit/utils/pv_eos.py | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/quantas/eosfit/eosfit.py b/quantas/eosfit/eosfit.py
index a22613e..0677d9a 100644
--- a/quantas/eosfit/eosfit.py
+++ b/quantas/eosfit/eosfit.py
@@ -163,7 +163,8 @@ class EoSFitCalculator(BasicCalculator):
 
                 if do_init_guess:
                     try:
-                        guess = eos.guess(values, self.input.pressure)
+                        guess = eos.guess(values, self.input.pressure,
+                                          linearized)
                     except np.linalg.LinAlgError:
                         self.error = '{} data are not suitable '.format(
                             data_name)
diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index d17315b..f2561ea 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -40,7 +40,7 @@ class EOS(object):
         return None
     
     
-    def guess(self, V, P):
+    def guess(self, V, P, linear=False):
         """ Parabolic fit of the :math:`P(V)` data in order to provide an
         initial guess for the EOS fit.
         
@@ -50,6 +50,9 @@ class EOS(object):
             Array of volume values.
         P: ndarray(dtype=float, ndim=1)
             Array of pressure values.
+        linear: bool, optional
+            Flag for axial data, whose moduli have a pressure derivative three
+            times that of the bulk modulus.
             
         Returns
         -------
@@ -62,7 +65,7 @@ class EOS(object):
         dp = np.polyder(np.polyfit(V,P,3), m=1)
         K0 = -V0 * np.polyval(dp,V0)
         # Initial KP
-        KP = 4.
+        KP = 12. if linear else 4.
         # Initial KPP
         KPP = 0.0
         guess_pars = [K0, KP, KPP, V0]
@@ -142,7 +145,7 @@ class EOS(object):
         except TypeError:
             #
             # Perform a guess on the parameters
-            p0 = self.guess(V, P)
+            p0 = self.guess(V, P, linear)
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-- 
2.43.0

