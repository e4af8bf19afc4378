From 0716dcf41e7b2eb8396eb0d20f247f103d7825d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 01/22] fix: gradev error bars use the confidence interval of
 the named noise type

The equivalent degrees of freedom and the confidence level were passed to
confidence_interval() in swapped positions, the interval end points were
returned instead of the documented distances from the deviation, and the
noise-type names did not match their power-law exponents.
---
 allantools/allantools.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 8daffcf..5b04618 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1647,18 +1647,13 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
 
     dev = np.sqrt(s / (2.0 * n)) / mj * rate
     # deverr = dev / np.sqrt(n) # old simple errorbars
-    if noisetype == 'wp':
-        alpha = 2
-    elif noisetype == 'wf':
-        alpha = 0
-    elif noisetype == 'fp':
-        alpha = -2
-    else:
-        alpha = None
+    # power-law exponent of the named noise type, None for unknown types
+    alpha = {'wp': 2, 'fp': 1, 'wf': 0, 'ff': -1, 'rf': -2}.get(noisetype)
 
     if n > 1:
         edf = ci.edf_simple(N, mj, alpha)
-        deverr = ci.confidence_interval(dev, confidence, edf)
+        low, high = ci.confidence_interval(dev, edf, confidence)
+        deverr = [dev - low, high - dev]
     else:
         deverr = [0, 0]
 
-- 
2.43.0


From 42d4651dc02fca29abfd8d7bfae7a33e00417971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 02/22] fix: edf_simple flicker FM at m=1 follows NIST SP1065
 Table 5 (missing square)

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index c4fe2bc..6c7cb2e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -816,7 +816,7 @@ def edf_simple(N, m, alpha):
 
         if alpha == -1:
             if m == 1:
-                edf = 2 * (N - 2)/(2.3 * N - 4.9)
+                edf = 2 * (N - 2)**2/(2.3 * N - 4.9)
             if m >= 2:
                 edf = 5 * N**2 / (4 * m * (N + (3 * m)))
 
-- 
2.43.0


From 68812f7200fc0c7226cffd50cd2f31bd18d7f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 03/22] fix: gradev does not crash when the number of valid
 samples equals the averaging factor

edf_simple divided a Python float by zero for white PM at N == m, which gradev
reaches for series with many gaps.
---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 6c7cb2e..5ec88e6 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -798,7 +798,7 @@ def edf_simple(N, m, alpha):
 
     """
 
-    N = float(N)
+    N = np.float64(N)  # inf or nan where the expression is undefined
     m = float(m)
     if alpha in [2, 1, 0, -1, -2]:
         # NIST SP 1065, Table 5
-- 
2.43.0


From ddd6c2e5e980dde5099379c1e040b1933fa83a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 04/22] fix: realtime add_frequency integrates with the sample
 interval tau0

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 50d3eb9..0ffbc17 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -79,7 +79,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f)  # integration
+        self.add_phase(self.x[-1] + f*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
-- 
2.43.0


From 6c6ab36ce37233e547106f32dcef6c450ec18b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 05/22] fix: realtime auto mode skips duplicate averaging
 factors and keeps array lengths equal

---
 allantools/realtime.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 0ffbc17..51c0e01 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -39,14 +39,14 @@ class dev_realtime(object):
         self.x = []                         # phase time-series
         self.afs = afs                      # averaging factor, tau = af*tau0
         self.auto_afs = auto_afs
-        # logscpace will fail at >=6 (?), need to remove duplicates?
+        # logspace gives duplicates at >=6, these are skipped in update_af()
         self.af_taus = numpy.logspace(0, 1, pts_per_decade+1)[:-1]
         # logspace index, to keep track of afs in auto-af mode
         self.af_idx = 0
         self.af_decade = 0    # logspace decade
         if auto_afs:
             self.afs = numpy.array([1])
-        self.dev = numpy.zeros(len(afs))    # resulting xDEV
+        self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
         self.tau0 = tau0                     # time-interval between points
 
     def update_af(self):
@@ -63,6 +63,10 @@ class dev_realtime(object):
         # next possible AF:
         next_af = int(numpy.round(
             pow(10.0, next_decade) * self.af_taus[next_idx]))
+        if next_af == self.afs[-1]:  # rounding gives the same AF again, skip
+            self.af_idx = next_idx
+            self.af_decade = next_decade
+            return self.update_af()
         if len(self.x) >= (2*next_af+1):  # can compute next AF
             self.afs = numpy.append(self.afs, next_af)  # new AF
             self.add_af()  # tell subclass to update internal variables
@@ -103,7 +107,7 @@ class oadev_realtime(dev_realtime):
         super(oadev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
@@ -139,7 +143,7 @@ class ohdev_realtime(dev_realtime):
         super(ohdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
@@ -177,8 +181,8 @@ class tdev_realtime(dev_realtime):
         super(tdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                             auto_afs=auto_afs,
                                             pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
-        self.So = numpy.zeros(len(afs))      # overall sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
+        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point """
-- 
2.43.0


From 1b4a68bc9a6ee95f6e7e294e51a43b06abcfa1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 06/22] fix: realtime auto mode uses every sample for newly
 added averaging factors

---
 allantools/realtime.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 51c0e01..541b79b 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -112,11 +112,11 @@ class oadev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
         self.x.append(xnew)
+        if self.auto_afs:  # before updating, so a new AF gets this sample too
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= (2*af+1):
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares.
@@ -151,11 +151,11 @@ class ohdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:  # before updating, so a new AF gets this sample too
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) > 3*af:
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares """
@@ -187,15 +187,14 @@ class tdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:  # before updating, so a new AF gets this sample too
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= 3*af+1:  # 3n+1 samples measured
                 self.update_S(idx)
             elif len(self.x) >= 2*af+1:  # 2n+1 samples measured
                 self.update_S3n(idx)
 
-        if self.auto_afs:
-            self.update_af()
-
     def add_af(self):
         self.S = numpy.append(self.S, 0)
         self.So = numpy.append(self.So, 0)
-- 
2.43.0


From 24c0bf3a47b8175376f4f0a0a07dadab6183ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 07/22] fix: Dataset.write_results writes the true averaging
 factor (tau times rate)

---
 allantools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 0c2c505..f709aa7 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -196,7 +196,7 @@ class Dataset(object):
                        "\n")
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(self.out["taus"][i] / self.out["taus"][0]),
+                    af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0


From 39f58eeec5627d29723b4da6b49b8d342e4c3f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 08/22] fix: Dataset.write_results handles the two-sided errors
 of gradev

---
 allantools/dataset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index f709aa7..17cf6c2 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -194,15 +194,19 @@ class Dataset(object):
                        "{sigma:.{prec}e} "
                        "{maxsigma:.{prec}e} "
                        "\n")
+            err = self.out["stat_err"]
+            if isinstance(err, list):  # gradev: lower and upper error
+                err_lo, err_hi = err
+            else:
+                err_lo = err_hi = err/2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
                     af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-                    minsigma=self.out["stat"][i] - self.out["stat_err"][i]/2,
+                    minsigma=self.out["stat"][i] - err_lo[i],
                     sigma=self.out["stat"][i],
-                    maxsigma=(self.out["stat"][i] +
-                              self.out["stat_err"][i]/2),
+                    maxsigma=self.out["stat"][i] + err_hi[i],
                     prec=digits-1,
                 ))
-- 
2.43.0


From 51659a1622b26d2f5cedfb61d7374c1f2eab8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 09/22] fix: confidence_interval_noiseID counts phase points
 for frequency data

---
 allantools/ci.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 5ec88e6..b079f5a 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -110,20 +110,23 @@ def confidence_interval_noiseID(x, dev, af, dev_type="adev",
         x, int(af), data_type=data_type, dmin=0, dmax=dmax)[0]
 
     # 2) EDF (tes was 'is')
+    N = len(x)  # number of phase points
+    if data_type == "freq":
+        N = len(x) + 1
     if dev_type == "adev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=False, modified=False)
     elif dev_type == "oadev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=True, modified=False)
     elif (dev_type == "mdev") or (dev_type == "tdev"):
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=True, modified=True)
     elif dev_type == "hdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=N,
                             overlapping=False, modified=False)
     elif dev_type == "ohdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=N,
                             overlapping=True, modified=False)
     else:
         raise NotImplementedError
-- 
2.43.0


From 3010df0465124f00d2ca54fba004821bd7728b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 10/22] fix: greenhall_table2 accepts the alpha=-4 row it
 contains

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index b079f5a..25f458a 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -690,7 +690,7 @@ def greenhall_table3(alpha, d):
 def greenhall_table2(alpha, d):
     """ Table 2 from [Greenhall2004]_ """
     row_idx = int(-alpha+2)  # map 2-> row0 and -4-> row6
-    assert(row_idx in [0, 1, 2, 3, 4, 5])
+    assert(row_idx in [0, 1, 2, 3, 4, 5, 6])
     col_idx = int(d-1)
     table2 = [
         # alpha = +2:
-- 
2.43.0


From 3353912a2f0873eec66a7101218793d1304ecce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 11/22] fix: rn() uses tau = af/rate for rates other than 1

---
 allantools/ci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 25f458a..fc7347e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -146,10 +146,10 @@ def rn(x, af, rate):
         ratio of MVAR to AVAR
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/rate], data_type='phase', rate=rate)
     oadev_x = devs[0]
     (mtaus, mdevs, errs, ns) = at.mdev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/rate], data_type='phase', rate=rate)
     mdev_x = mdevs[0]
     return pow(mdev_x/oadev_x, 2)
 
-- 
2.43.0


From ba3da90ca5fadef8a9fd26fcef789787b6a0a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 12/22] fix: b1() uses tau = af/rate and fractional frequency
 for rates other than 1

---
 allantools/ci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index fc7347e..9c94395 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -201,12 +201,12 @@ def b1(x, af, rate):
 
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type="phase", rate=rate)
+        x, taus=[af/rate], data_type="phase", rate=rate)
     oadev_x = devs[0]
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = np.diff(x)
+    y = np.diff(x)*rate
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From 14cd440eb8429cec7b09e988134fe77212a189a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 13/22] fix: pdev_from_qd flicker PM coefficient is
 3(ln16-1)/(2 pi^2)

---
 allantools/noise_kasdin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise_kasdin.py b/allantools/noise_kasdin.py
index ae5f253..7714ffa 100644
--- a/allantools/noise_kasdin.py
+++ b/allantools/noise_kasdin.py
@@ -340,7 +340,7 @@ class Noise(object):
             coeff = 3.0/(2.0*pow(np.pi, 2))  # Vernotte Table I
         elif self.b == -1:
             # D, Flicker PM, tau^-1
-            coeff = (3.0*np.log(16)-1.0)/2.0/pow(np.pi, 2)
+            coeff = 3.0*(np.log(16)-1.0)/2.0/pow(np.pi, 2)
         elif self.b == -2:  # C, white FM,  1/sqrt(tau)
             coeff = 3.0/5.0
         elif self.b == -3:
-- 
2.43.0


From ba9ea4a8e1afc21f3df6b11c1348a457f92114bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 14/22] fix: Plot.plot(grid=False) also switches off the minor
 grid of an earlier plot

---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 85a201e..a224c19 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -98,7 +98,7 @@ class Plot(object):
             self.ax.grid(True, which="minor", ls="-", color='0.65')
             self.ax.grid(True, which="major", ls="-", color='0.25')
         else:
-            self.ax.grid(False)
+            self.ax.grid(False, which="both")
 
     def show(self):
         """Calls matplotlib.pyplot.show()
-- 
2.43.0


From 738810044e4152eaf96cfc5bfb6517f421042034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 15/22] fix: numpy_psd frequency axis is k*fs/N for odd N too

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index e66332e..72afdbf 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -46,7 +46,7 @@ def numpy_psd(x, f_sample=1.0):
     """
     psd_of_x = ((2.0 / (float(len(x)) * f_sample))
                 * np.abs(np.fft.rfft(x))**2)
-    f_axis = np.linspace(0, f_sample/2.0, len(psd_of_x))  # frequency axis
+    f_axis = np.arange(len(psd_of_x))*f_sample/float(len(x))
     return f_axis, psd_of_x
 
 
-- 
2.43.0


From f6d7675f042bb4cca0df09fd10bf35e70ecacf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 16/22] fix: timmer_koenig_from_psd builds the Hermitian half
 for odd lengths

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 72afdbf..9706d22 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -315,7 +315,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for j in range(1, n // 2 + 1):
         X[j] = (np.sqrt(Sx[j]) / 2.0) * (np.random.normal(0, 1) + 1j * np.random.normal(0, 1))
 
-    X[n // 2 + 1:] = np.conj(X[1:n // 2][::-1])
+    X[n // 2 + 1:] = np.conj(X[1:(n + 1) // 2][::-1])
 
     x = np.fft.ifft(X) * np.sqrt((n - 1) / timestep)
     x = x.real
-- 
2.43.0


From 17417a665d616f9665fc74ae4b167be1f85c3729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 17/22] fix: timmer_koenig_from_psd has power at a frequency
 equal to the last node

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 9706d22..cdd4796 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -295,7 +295,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for i, f in enumerate(frequencies):
         if f_nodes.size > 0 and f < f_nodes[0]:
             Sy[i] = h_ext[0] * f ** alpha_ext[0]
-        elif f_nodes.size > 0 and f > f_nodes[-1]:
+        elif f_nodes.size > 0 and f >= f_nodes[-1]:
             Sy[i] = h_ext[-1] * f ** alpha_ext[-1]
         else:
             if f_nodes.size == 0:
-- 
2.43.0


From cb29fe2f73ba6b29e80969f7aa7d2350dda54b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 18/22] fix: psd2allan builds its frequency grids from integer
 indices (no rounding failures)

---
 allantools/allantools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 5b04618..dcd0f4e 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1725,8 +1725,8 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
         raise ValueError(np.ndarray)  # raise error
     oversamplingfactor = 4
     df0 = oversamplingfactor * df
-    f0 = np.arange(S_y.size * df0, step=df0)
-    f = np.arange(df, (S_y.size - 1) * df0 + df, df)
+    f0 = np.arange(S_y.size) * df0
+    f = np.arange(1, (S_y.size - 1) * oversamplingfactor + 1) * df
     S_y = interpolate.interp1d(f0, S_y, kind='cubic')(f)
     f = f / oversamplingfactor
 
-- 
2.43.0


From 1ab6d31767762fc51dda9c5188021733af571f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 19/22] fix: adev2psd_piecewise_approx places break frequencies
 where neighbouring segments meet for any tau spacing

---
 allantools/allantools.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index dcd0f4e..c2cfee9 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1876,17 +1876,14 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
         dtype=float,
     )
 
-    # hi coefficients (time-order), plus integral_values
+    # hi coefficients (time-order)
     hi = []
-    integral_values = []
     for i in range(Bi.size):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore", category=IntegrationWarning)
             I, _ = quad(lambda z: q(z) * (np.sin(z) ** 4) / (z ** (3.0 + mus[i])), 0.0, np.inf)
-        integral_values.append(I)
         hi.append(Bi[i] / (2.0 * I * (np.pi ** mus[i])))
 
-    integral_values = np.asarray(integral_values, dtype=float)
     hi = np.asarray(hi, dtype=float)
 
     # reverse hi for frequency ordering (exactly like your original)
@@ -1902,12 +1899,11 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     else:
         f_nodes = np.array(
             [
-                1.0 / (10.0 * np.pi * filtered_tau[i]) *
-                (integral_values[i] / integral_values[i + 1]) ** (1.0 / (mus[i + 1] - mus[i]))
+                (hi[i] / hi[i + 1]) ** (1.0 / (alphas[i + 1] - alphas[i]))
                 for i in range(mus.size - 1)
             ],
             dtype=float,
-        )[::-1]
+        )
         Sy_nodes = np.array([hi[i] * (f_nodes[i] ** alphas[i]) for i in range(f_nodes.size)], dtype=float)
 
     return f_nodes, Sy_nodes, hi, alphas
-- 
2.43.0


From 49815dec6c44335069574ca07369e3068a219b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 20/22] fix: integer phase data is converted to float so that
 differences do not wrap around

---
 allantools/allantools.py | 16 +++++++++++++---
 allantools/ci.py         |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index c2cfee9..53c789e 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1136,7 +1136,7 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
 
     """
     if data_type == "phase":
-        phase = data
+        phase = integers_to_float(data)
         freq = phase2frequency(phase, rate)
     elif data_type == "freq":
         phase = frequency2phase(data, rate)
@@ -1973,11 +1973,21 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
 #
 
 
+def integers_to_float(data):
+    """ Return integer data as floats, and any other data unchanged
+
+    Differences and squares of machine integers wrap around silently.
+    """
+    if np.asarray(data).dtype.kind in "iu":
+        return np.asarray(data, dtype=float)
+    return data
+
+
 def input_to_phase(data, rate, data_type):
     """ Take either phase or frequency as input and return phase
     """
     if data_type == "phase":
-        return data
+        return integers_to_float(data)
     elif data_type == "freq":
         return frequency2phase(data, rate)
     else:
@@ -2366,7 +2376,7 @@ def phase2frequency(phase, rate):
     y: np.array
         Data array of fractional frequency, length N-1
     """
-    y = rate*np.diff(phase)
+    y = rate*np.diff(integers_to_float(phase))
     return y
 
 
diff --git a/allantools/ci.py b/allantools/ci.py
index 9c94395..1e7d297 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -206,7 +206,7 @@ def b1(x, af, rate):
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = np.diff(x)*rate
+    y = at.phase2frequency(x, rate)
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From 364ab22d22ad95f63864a979abcb27497eac4b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 21/22] fix: htotdev ignores leading and trailing NaNs of
 frequency data like the other statistics

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 53c789e..fb3c185 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1140,7 +1140,7 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
         freq = phase2frequency(phase, rate)
     elif data_type == "freq":
         phase = frequency2phase(data, rate)
-        freq = data
+        freq = trim_data(data)  # as frequency2phase() does
     else:
         raise Exception("unknown data_type: " + data_type)
 
-- 
2.43.0


From 0c60e1ce7f083543fb989adc11c68452f13c09cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:51 +0000
Subject: [PATCH 22/22] fix: Plot.save() saves its own figure, not the most
 recently created one

---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index a224c19..570b9c7 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -111,4 +111,4 @@ class Plot(object):
     def save(self, f):
         """Save figure to file
         """
-        self.plt.savefig(f)
+        self.fig.savefig(f)
-- 
2.43.0

