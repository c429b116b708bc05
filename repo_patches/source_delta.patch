From 6dbe56aa67cc08718e4d1ab23cd5aefe0e84cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 001/106] fix: NavIC L5 carrier frequency

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index f5bd40f..ecc6997 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -81,7 +81,7 @@ class rCST():
     FREQ_S5 = 1176.45e6      # [Hz] SBS L5
 
     FREQ_I1 = 1575.42e6      # [Hz] IRS L1
-    FREQ_I5 = 1191.795e6     # [Hz] IRS L5
+    FREQ_I5 = 1176.45e6      # [Hz] IRS L5
     FREQ_IS = 2492.028e6     # [Hz] IRS S
 
     COS_5 = 0.9961946980917456
-- 
2.43.0


From 17dbe5226820e84ce9d44a337e55cac2dc1f3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 002/106] fix: initialise the cuc harmonic of an ephemeris

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index ecc6997..ba3bf31 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -726,7 +726,7 @@ class Eph():
         self.crs = 0.0
         self.crc = 0.0
         self.cus = 0.0
-        self.cus = 0.0
+        self.cuc = 0.0
         self.cis = 0.0
         self.cic = 0.0
         self.e = 0.0
-- 
2.43.0


From 2d767bd9ca59471830f5d0c3befe066731e2d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 003/106] fix: check the tracking attribute of GPS L2 and L5
 signals

---
 src/cssrlib/gnss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index ba3bf31..d0725f3 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -477,8 +477,8 @@ class rSigRnx():
         if len(s) == 3:
             if sys == uGNSS.GPS:
                 if (s[1] == '1' and s[2] not in 'CSLXPWYM') or \
-                   (s[2] == '2' and s[2] not in 'CDSLXPWYMN') or \
-                   (s[2] == '5' and s[2] not in 'IQX'):
+                   (s[1] == '2' and s[2] not in 'CDSLXPWYMN') or \
+                   (s[1] == '5' and s[2] not in 'IQX'):
                     raise ValueError
             elif sys == uGNSS.GLO:
                 if (s[1] == '1' and s[2] not in 'CPX') or \
-- 
2.43.0


From 3c42c6adf7b6559780358bd4b340a3e69e26d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 004/106] fix: GLONASS G2a is RINEX band 6

---
 src/cssrlib/gnss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index d0725f3..c5390cc 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -485,7 +485,7 @@ class rSigRnx():
                    (s[1] == '2' and s[2] not in 'CPX') or \
                    (s[1] == '3' and s[2] not in 'IQX') or \
                    (s[1] == '4' and s[2] not in 'ABX') or \
-                   (s[1] == '6' and s[2] not in 'ABX'):
+                   (s[1] in '56' and s[2] not in 'ABX'):
                     raise ValueError
             elif sys == uGNSS.GAL:
                 if (s[1] == '1' and s[2] not in 'ABCXZ') or \
@@ -574,7 +574,7 @@ class rSigRnx():
                 return rCST.FREQ_R3
             elif int(self.sig / 100) == 4:
                 return rCST.FREQ_R1a
-            elif int(self.sig / 100) == 5:
+            elif int(self.sig / 100) in (5, 6):
                 return rCST.FREQ_R2a
             else:
                 return None
-- 
2.43.0


From 9e8447b388ed95be6163b2234d5c9f732a074cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 005/106] fix: pos2ecef leaves the position of its caller
 unchanged

---
 src/cssrlib/gnss.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index c5390cc..5ee5610 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1437,8 +1437,7 @@ def ecef2pos(r):
 def pos2ecef(pos, isdeg: bool = False):
     """ LLH (rad/deg) to ECEF position conversion  """
     if isdeg:
-        pos[0] *= np.pi/180.0
-        pos[1] *= np.pi/180.0
+        pos = [pos[0]*np.pi/180.0, pos[1]*np.pi/180.0, pos[2]]
     s_p = sin(pos[0])
     c_p = cos(pos[0])
     s_l = sin(pos[1])
-- 
2.43.0


From a886ab312d79f0ef4b5e5d58e0b8a96e20160ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 006/106] fix: QZSS L1C pilot in the compact SSR signal table

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 00800c3..c6f08ae 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -431,7 +431,7 @@ class cssr:
         qzs_tbl = {
             sSigQZS.L1C: uSIG.L1C,
             sSigQZS.L1S: uSIG.L1S,
-            sSigQZS.L1L: uSIG.L1C,
+            sSigQZS.L1L: uSIG.L1L,
             sSigQZS.L1X: uSIG.L1X,
             sSigQZS.L2S: uSIG.L2S,
             sSigQZS.L2L: uSIG.L2L,
-- 
2.43.0


From 24274747e8e1fcf1de13f4c40fcdb61c39b665fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 007/106] fix: clock-epoch covariance term E24 of MT28/MT32

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 625aa4b..76a4861 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -761,7 +761,7 @@ class sbasDec(cssr):
 
         scl = 2**(scale-5)
         R = np.array([[E11, E12, E13, E14],
-                      [0, E22, E23, E23],
+                      [0, E22, E23, E24],
                       [0,   0, E33, E34],
                       [0,   0,   0, E44]])*scl
         C = R.T@R
-- 
2.43.0


From b6cb7b36ef2376b601fadc9c2e1bb9ec35c62276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 008/106] fix: offset of the long-term half of MT24

---
 src/cssrlib/sbas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 76a4861..73c882a 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -685,6 +685,7 @@ class sbasDec(cssr):
             return i
 
         i = self.decode_sbas_fast_corr_blk(msg, i, 6, type_)
+        i += 10
         i = self.decode_sbas_lcorr_half(msg, i)  # MT25 half-msg(106bits)
         return i
 
-- 
2.43.0


From 44e2733b84cfcac570ff8cfdb46922e373ab77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 009/106] fix: UDREI position of a partly used fast correction
 block

---
 src/cssrlib/sbas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 73c882a..c22a6e5 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -439,14 +439,14 @@ class sbasDec(cssr):
             i += 12
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.lc[0].hclk[self.sat[j]] = -self.sval(fc, 12, 0.125)
         for k in range(n):
             udrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.obad.udrei[self.sat[j]] = udrei
             self.set_t0(sat=self.sat[j], ctype=sCType.HCLOCK, t=self.time)
 
-- 
2.43.0


From db131acebe821c7d44d80a9da061f124099579a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 010/106] fix: skip a long-term half message of another IODP as
 a whole

---
 src/cssrlib/sbas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index c22a6e5..3636526 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -648,6 +648,7 @@ class sbasDec(cssr):
         ofst = 102 if vc == 0 else 103
         iodp = bs.unpack_from('u2', msg, i+ofst)[0]
         if iodp != self.iodp:
+            i += 105
             return i
 
         if vc == 0:
-- 
2.43.0


From de929cbb3d1586ecb04776727b533a5eaec48925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 011/106] fix: right ascension of the DFMC SBAS ephemeris

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 3636526..117106e 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -954,7 +954,7 @@ class sbasDec(cssr):
         eph.cus = self.sval(cus, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.idot = self.sval(idot, 22, 7/6*rCST.SC2RAD*rCST.P2_21*1e-6)
         eph.omg = self.sval(omg, 34, rCST.SC2RAD*rCST.P2_33)
-        eph.Omg0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
+        eph.OMG0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
         eph.M0 = self.sval(M0, 34, rCST.SC2RAD*rCST.P2_33)
 
         eph.af0 = self.sval(af0, 25, 0.02/rCST.CLIGHT)  # [m] -> [s]
-- 
2.43.0


From 2291b43d2738d198769113cac80d87958b948614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:10 +0000
Subject: [PATCH 012/106] fix: semi-major axis of the DFMC SBAS ephemeris

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 117106e..0570a3b 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -978,7 +978,7 @@ class sbasDec(cssr):
         eph = self.Eph
         eph.i0 = i0*rCST.SC2RAD*rCST.P2_33
         eph.e = e*rCST.P2_30
-        eph.a = a*0.02
+        eph.A = a*0.02
 
         eph.toe = tod2tow(te*16.0, self.time)
         eph.toc = eph.toe
-- 
2.43.0


From aa7441f50660cbe5b3f82f3814c92be7ec691ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 013/106] fix: OMEGADOT of the DFMC SBAS almanac

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 0570a3b..1a13e41 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -1014,7 +1014,7 @@ class sbasDec(cssr):
             alm.i0 = i0*rCST.SC2RAD*rCST.P2_13
             alm.omg = omg*rCST.SC2RAD*rCST.P2_13
             alm.OMG0 = OMG0*rCST.SC2RAD*rCST.P2_13
-            alm.OMDd = OMGd*1e-9
+            alm.OMGd = OMGd*1e-9
             alm.M0 = M0*rCST.SC2RAD*rCST.P2_14
             alm.toa = tod2tow(ta*1800.0, self.time)
             self.Alm[sat] = alm
-- 
2.43.0


From ae5415c250c631603e615948f052698eb2c07ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 014/106] fix: keep the DFREI of MT34-36 with their satellites

---
 src/cssrlib/sbas.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 1a13e41..ac53f93 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -861,14 +861,14 @@ class sbasDec(cssr):
             sat = self.sat_n[j]
             if dfreci[j] == 1:
                 if k < 7:
-                    self.dfrei[sat] = dfrei[k]
+                    self.obad.dfrei[sat] = dfrei[k]
                     k += 1
-            elif dfreci[j] == 2:
-                self.dfrei[sat] += 1
-                if self.dfrei[sat] > 14:
-                    self.dfrei[sat] = 14
+            elif dfreci[j] == 2 and sat in self.obad.dfrei:
+                self.obad.dfrei[sat] += 1
+                if self.obad.dfrei[sat] > 14:
+                    self.obad.dfrei[sat] = 14
             elif dfreci[j] == 3:  # DNU
-                self.dfrei[sat] = 15
+                self.obad.dfrei[sat] = 15
 
         i += 4
         return i
@@ -881,8 +881,10 @@ class sbasDec(cssr):
             return i
 
         for k in range(53):
-            self.dfrei[k] = bs.unpack_from('u4', msg, i)[0]
+            dfrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
+            if k < self.nsat:
+                self.obad.dfrei[self.sat_n[k]] = dfrei
 
         i += 4
         return i
@@ -895,8 +897,10 @@ class sbasDec(cssr):
             return i
 
         for k in range(39):
-            self.dfrei[k+53] = bs.unpack_from('u4', msg, i)[0]
+            dfrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
+            if k+53 < self.nsat:
+                self.obad.dfrei[self.sat_n[k+53]] = dfrei
         i += 60
         return i
 
-- 
2.43.0


From 36feb7d07d381332d4cbb91d6683aa2659814910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 015/106] fix: skip an unused station of MT47

---
 src/cssrlib/dgps.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index e7b9179..9beee27 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -139,6 +139,7 @@ class dgpsDec(cssr):
         for k in range(5):
             code, lat, lon, alt = bs.unpack_from('u6s15s15u6', msg, i)
             if code == 63:
+                i += 42
                 continue
             self.posr[code, 0] = lat*0.005
             self.posr[code, 1] = lon*0.005+115
-- 
2.43.0


From f2b8f1045dd8dba50bac1a320d41bc841e08428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 016/106] fix: satellite health of MT51

---
 src/cssrlib/dgps.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 9beee27..30c1699 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -76,6 +76,7 @@ class dgpsDec(cssr):
         self.iodp_c = {}
 
         self.baselen = 0  # baseline length [km]
+        self.svh = {}
 
         self.posr = np.zeros((self.MAX_ST, 3))
         self.posr[0, :] = [43.150, 141.220,  50]
-- 
2.43.0


From c558fe960120c1540efbc1564a0a1cdd8dbd7465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 017/106] fix: sub-type 6 biases without a network

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index c6f08ae..601e0f1 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -807,7 +807,7 @@ class cssr:
             self.udi[sCType.PBIAS] = head['udi']
         ki = 0
         for k in range(self.nsat_n):
-            if not self.isset(v['svmaskn'], self.nsat_n, k):
+            if dfm['net'] and not self.isset(v['svmaskn'], self.nsat_n, k):
                 continue
             sat = self.sat_n[k]
             if dfm['cb']:
-- 
2.43.0


From 5ba3f6ee2ef2f02b8ad0b0e83216c9c7f2f0afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 018/106] fix: skip the code biases of a satellite outside the
 mask

---
 src/cssrlib/cssr_bds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index e64ff58..53d986b 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -250,6 +250,7 @@ class cssr_bds(cssr):
             sys, prn = self.slot2prn(slot)
             sat = prn2sat(sys, prn)
             if sat not in sat_n:
+                i += nsig*(4+self.cb_blen)
                 continue
             if sat not in self.lc[inet].t0:
                 self.lc[inet].t0[sat] = {}
-- 
2.43.0


From 14cfb33ea8f7c3b3cae1d024074889aba2f21608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 019/106] fix: advance over the counts of B2b combined messages

---
 src/cssrlib/cssr_bds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 53d986b..0af46f5 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -335,6 +335,7 @@ class cssr_bds(cssr):
     def decode_cssr_comb1(self, msg, i, inet=0):
         """decode MT6 combined message #1 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
+        i += 8
         sat_n = np.array(self.sat_n)
 
         if numc > 0:
@@ -357,6 +358,7 @@ class cssr_bds(cssr):
     def decode_cssr_comb2(self, msg, i, inet=0):
         """decode MT7 combined message #2 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
+        i += 8
         sat_n = np.array(self.sat_n)
 
         if numc > 0:
-- 
2.43.0


From 8eef82e9ddece8211ea3a113da1a3f70749eb974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 020/106] fix: slot of the B2b combined message type 7

---
 src/cssrlib/cssr_bds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 0af46f5..7d41c8c 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -365,7 +365,7 @@ class cssr_bds(cssr):
             tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
             i += 23
             for k in range(numc):
-                slot = bs.unpack_from('u9', msg, i)
+                slot = bs.unpack_from('u9', msg, i)[0]
                 i += 9
                 sys, prn = self.slot2prn(slot)
                 sat = prn2sat(sys, prn)
-- 
2.43.0


From dc6d2c0fb8c03499203da71e8e4a188345ba8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 021/106] fix: east distance to a circular MADOCA iono area

---
 src/cssrlib/cssr_mdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 30c1b11..f031fff 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -77,7 +77,7 @@ class cssr_mdc(cssr):
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
                     de = (lond - p.lonr)*rCST.D2R * \
-                        rCST.RE_WGS84*np.cos(p.lonr*rCST.D2R)
+                        rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
                     if r <= p.rng:
                         self.reg = reg
-- 
2.43.0


From a37893f9cb6e1bb018f89d98e0ea6322f32d35d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 022/106] fix: HAS clock subset corrections

---
 src/cssrlib/cssr_has.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index e9577f4..222d558 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -46,14 +46,15 @@ class cssr_has(cssr):
         for j in range(nclk_sub):
             gnss, dcm = bs.unpack_from('u4u2', msg, i)
             i += 6
-            idx_s = np.where(np.array(self.gnss_n) == gnss)
+            idx_s = np.where(np.array(self.gnss_n) == gnss)[0]
             mask_s = bs.unpack_from('u'+str(self.nsat_g[gnss]), msg, i)[0]
             i += self.nsat_g[gnss]
-            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss])
+            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss], 0)
             for k in range(nclk):
-                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i) \
-                    * self.dclk_scl*(dcm+1)
-                self.lc[0].dclk[idx_s[idx[k]]] = dclk
+                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i)[0]
+                sat = self.sat_n[idx_s[idx[k]]]
+                self.lc[0].dclk[sat] = self.sval(
+                    dclk, self.dclk_blen, self.dclk_scl)*(dcm+1)
                 i += self.dclk_blen
         return i
 
-- 
2.43.0


From d682b8e1b5271045870fab2a697a753e1f9ae2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 023/106] fix: week of the OSNMA key chain across a week
 boundary

---
 src/cssrlib/osnma.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 57592c8..7ae5be8 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -352,10 +352,8 @@ class osnma():
         klen_b = self.klen_t[self.ks]//8
         for k in range(ki):
             gst_tow = gst_tow0 - 30*(k+1)
-            if gst_tow < 0:
-                gst_tow += 86400*7
-                gst_wn -= 1
-            gst = bs.pack('u12u20', gst_wn, gst_tow)
+            wn = gst_wn + gst_tow//(86400*7)
+            gst = bs.pack('u12u20', wn, gst_tow % (86400*7))
             msg = key + gst + self.alp
             key = self.process_hash(msg)[0:klen_b]
         return key
-- 
2.43.0


From a1d4aab1b8943315fd7f5bfe6d59d088782e885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 024/106] fix: store a loaded public key under its own identity

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 7ae5be8..d987884 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -304,7 +304,7 @@ class osnma():
         pk = load_pubkey(self.pubk_bdir+pubk_path)
         if pk is None:
             return False
-        self.pk_list[self.pkid] = pk
+        self.pk_list[pkid] = pk
         return True
 
     def verify_root_key(self):
-- 
2.43.0


From 738086fe3579ea3420d516a565556416ae019e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 025/106] fix: previous sub-frame of the first sub-frame of a
 week

---
 src/cssrlib/osnma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index d987884..58f9bd6 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -893,8 +893,8 @@ class osnma():
                 return status
 
             # 6.5 MAC Look-up Table Verification
-            self.gst_tow_p = self.gst_tow-30
-            self.gst_sf_p = self.set_gst_sf(gst_wn, self.gst_tow_p)
+            wn_p, self.gst_tow_p = divmod(self.gst_tow-30, 86400*7)
+            self.gst_sf_p = self.set_gst_sf(gst_wn+wn_p, self.gst_tow_p)
             result = self.verify_maclt()
             if self.monlevel > 0:
                 s = f"on {wn:4d}/{tow:6d} prn={prn}"\
-- 
2.43.0


From f390797219b7071d4318656118bdc616aa9f1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 026/106] fix: iterate over a copy of the slow-MAC tag list

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 58f9bd6..fe70107 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -969,7 +969,7 @@ class osnma():
                         print(f"{s} tag not verified")
             # slow MAC
             if self.flg_slowmac:
-                for tag_ in self.tag_list:
+                for tag_ in self.tag_list[:]:
                     dt = self.difftime(self.gst_sf_p, tag_.gst_sf)
                     if dt == 300:
                         self.prn_a = tag_.prn_a
-- 
2.43.0


From fe06591752ba6352a558c366f2c02ea9b59924fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 027/106] fix: per-instance OSNMA message buffers

---
 src/cssrlib/osnma.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index fe70107..3486661 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -257,11 +257,17 @@ class osnma():
         # 'OSNMA_MerkleTree_20240115100000_newPKID_1.xml'
 
         self.cnt = np.zeros(self.GALMAX, dtype=int)
+        self.hk = []
+        self.mack = []
         for prn in range(self.GALMAX):
             self.hk.append(bytearray(15))
             self.mack.append(bytearray(60))
+        self.mack_p = bytearray(60*self.GALMAX)
+        self.mack_c = bytearray(60*self.GALMAX)
         self.pk_list = {}
 
+        self.dsm = {}
+        self.nb = {}
         self.flg_dsm = {}
 
         self.subfrm_n = {}
-- 
2.43.0


From 219a53846d74241b5523b4593e651ec498892050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 028/106] fix: use the public key named by the message

---
 src/cssrlib/qznma.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 7652cf9..f0686ae 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -92,6 +92,7 @@ class qznma():
     def __init__(self):
         self.navmsg = {}
         self.pk = None
+        self.keyid = -1  # key id of the loaded public key
         self.rds = {}
         self.flag_e = {}
         self.mask = {}
@@ -525,7 +526,8 @@ class qznma():
         sat = self.svid2sat(npr.svid)
         sys, prn = sat2prn(sat)
 
-        if self.pk is None:
+        if self.pk is None or self.keyid != npr.keyid:
+            self.keyid = npr.keyid
             pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
             self.pk = load_pubkey(pubk_path)
             if self.pk is None:
@@ -719,7 +721,8 @@ class qznma():
         rand_[1:k1+1] = msg
         bs.pack_into('u16', rand_, 8+mlen, npr.salt)
 
-        if self.pk is None:
+        if self.pk is None or self.keyid != npr.keyid:
+            self.keyid = npr.keyid
             pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
             self.pk = load_pubkey(pubk_path)
             if self.pk is None:
-- 
2.43.0


From 4872721210616bce8ec09e56a5e5db048faba6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 029/106] fix: do not accumulate the orbit rate into the stored
 correction

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 5a1c699..8b2b744 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -356,7 +356,7 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
 
-                dorb += cs.lc[0].dvel[sat] * \
+                dorb = dorb + cs.lc[0].dvel[sat] * \
                     (timediff(t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
@@ -588,7 +588,7 @@ def satposs(obs, nav, cs=None, orb=None):
                 dorb = cs.lc[0].dorb[sat]  # radial,along-track,cross-track
 
                 if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                    dorb += cs.lc[0].dvel[sat] * \
+                    dorb = dorb + cs.lc[0].dvel[sat] * \
                         (timediff(obs.t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
-- 
2.43.0


From ad63587b4065feaed35cfb9aad4bb93a31b6864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 030/106] fix: qcedit leaves the base station position
 unchanged

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4c7bc59..08a4395 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1195,7 +1195,7 @@ class pppos():
             if self.nav.pmode > 0:
                 rr_ += self.nav.x[3:6]*tt
         else:
-            rr_ = rr
+            rr_ = np.array(rr, dtype=float)
 
         # Solid Earth tide corrections
         #
-- 
2.43.0


From 0b0055e015a48bd3babae7d93333d719d34b35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 031/106] fix: index of the geometry-free history

---
 src/cssrlib/pppssr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 08a4395..f7b8c37 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1350,14 +1350,14 @@ class pppos():
                 if L1R != 0.0 and L2R != 0.0:
                     gf1 = (L1R*lam1-L2R*lam2)
                     if rr is None:  # rover
-                        gf0 = self.nav.gf[sat_i]
+                        gf0 = self.nav.gf[i]
                     else:  # base
-                        gf0 = self.nav.gf_r[sat_i]
+                        gf0 = self.nav.gf_r[i]
                     if gf1 != 0.0:
                         if rr is None:  # rover
-                            self.nav.gf[sat_i] = gf1
+                            self.nav.gf[i] = gf1
                         else:  # base
-                            self.nav.gf_r[sat_i] = gf1
+                            self.nav.gf_r[i] = gf1
                     if gf0 != 0.0 and gf1 != 0.0 and \
                             abs(gf1-gf0) > self.nav.thresslip:
                         self.nav.edt[i, 0:2] = 1
-- 
2.43.0


From 944138f2d4b35093231ea436221f858e8fe43ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 032/106] fix: index of the troposphere state without
 ionosphere states

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index f7b8c37..d0b8bde 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -259,7 +259,7 @@ class pppos():
 
     def IT(self, na):
         """ return index of zenith tropospheric delay estimate """
-        return na-uGNSS.MAXSAT-1
+        return na-self.nav.niono-1
 
     def varerr(self, nav, el, f):
         """ variation of measurement """
-- 
2.43.0


From 1cfa0188e64e8dd3f6155aa6331577abf0e96803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 033/106] fix: options of one positioning object do not leak
 into the next

---
 src/cssrlib/pppssr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index d0b8bde..1544bbe 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -3,6 +3,7 @@ module for standard PPP positioning
 """
 
 import numpy as np
+from copy import deepcopy
 
 from cssrlib.ephemeris import satposs
 from cssrlib.gnss import sat2id, sat2prn, rSigRnx, uTYP, uGNSS, rCST
@@ -37,6 +38,7 @@ class pppos():
 
         if config is None:
             config = default_config
+        config = deepcopy(config)
 
         if trop_opt > 0:
             config['nav']['trop_opt'] = trop_opt
-- 
2.43.0


From cc98f32d8a8dcc922239854b43eb362774c4595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 034/106] fix: IAU 1976 precession angle zeta

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index b588583..9f0c5a7 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1156,7 +1156,7 @@ def eci2ecef(tutc, erpv):
     t3 = t2*t
     f = ast_args(t)
 
-    ze = (2306.2181*t+0.20188*t2+0.017998*t3)*rCST.AS2R
+    ze = (2306.2181*t+0.30188*t2+0.017998*t3)*rCST.AS2R
     th = (2004.3109*t-0.42665*t2-0.041833*t3)*rCST.AS2R
     z = (2306.2181*t+1.09468*t2+0.018203*t3)*rCST.AS2R
     eps = (84381.448-46.8150*t-0.00059*t2+0.001813*t3)*rCST.AS2R
-- 
2.43.0


From 6013decd605fa4ced01f6c98ee96831729c3f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 035/106] fix: precise orbit at the end of its coverage

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 9f0c5a7..699dc64 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -454,7 +454,7 @@ class peph:
         #
         time_tt = timeadd(time, tt)
         rst, dtst, _, _ = self.pephpos(time_tt, sat, nav)
-        if rss is None:
+        if rst is None:
             return None, None, False
 
         # Get clock offset from Clock-RINEX
-- 
2.43.0


From 5dccb3ce5e2073c0b20f2cc27839ffc1d89ff3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 036/106] fix: reference signal of a differential code bias

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 699dc64..7bb7702 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1278,7 +1278,7 @@ class biasdec():
                     timediff(time, dcb.ted) < 0.0:
                 bias = dcb.bias
                 std = dcb.std
-                bcode = dcb.code1
+                bcode = dcb.sig1
                 break
 
         return bias, std, bcode
-- 
2.43.0


From 0bccc09c3f6a80231f119c8530184e7ab273fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 037/106] fix: satellite antenna without the requested signal

---
 src/cssrlib/peph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 7bb7702..df1f55d 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -840,6 +840,10 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
         #
         sig = substSigTx(ant, sig_)
 
+        if sig not in ant.off or sig not in ant.var:
+            dant[i] = None
+            continue
+
         # Satellite PCO in local antenna frame
         #
         off = ant.off[sig] - off0
@@ -850,12 +854,9 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
 
         # Interpolate PCV and map PCO on line-of-sight vector
         #
-        if sig not in ant.off or sig not in ant.var:
-            dant[i] = None
-        else:
-            pcv = np.interp(za, za_t, ant.var[sig])
-            pco = -np.dot(pco_v, -e)
-            dant[i] = (pco+pcv)*1e-3
+        pcv = np.interp(za, za_t, ant.var[sig])
+        pco = -np.dot(pco_v, -e)
+        dant[i] = (pco+pcv)*1e-3
 
     return dant
 
-- 
2.43.0


From 47b977c6fa78ef32b0d32a2c5bb1049cb5906308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 038/106] fix: continuation lines of SYS / # / OBS TYPES

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 332823b..1896755 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -838,7 +838,7 @@ class rnxdec:
                 # Extract string list of signal codes
                 #
                 sigs = line[7:60].split()
-                for _ in range(int(nsig/14)):
+                for _ in range((nsig-1)//13):
                     line2 = self.fobs.readline()
                     sigs += line2[7:60].split()
 
-- 
2.43.0


From 30e0c660c352eba027201ff13d590bf80a6eddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 039/106] fix: group delay of NavIC ephemerides

---
 src/cssrlib/rinex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 1896755..85c717a 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -633,9 +633,9 @@ class rnxdec:
                     eph.urai = self.flt(line, 0)
                 eph.svh = int(self.flt(line, 1))
                 if self.mode_nav == 2 and eph.integ == 1:
-                    eph.tgd = int(self.flt(line, 3))
+                    eph.tgd = self.flt(line, 3)
                 else:
-                    eph.tgd = int(self.flt(line, 2))
+                    eph.tgd = self.flt(line, 2)
             else:
                 eph.sva = int(self.flt(line, 0))
                 eph.svh = int(self.flt(line, 1))
-- 
2.43.0


From 1c4b8660562fa85dd05c29ec800a65cbee6308e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 040/106] fix: issue of data of NavIC L1NV ephemerides

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 85c717a..2b776bc 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -577,7 +577,7 @@ class rnxdec:
             line = fnav.readline()  # line #3
             if sys == uGNSS.IRN and self.mode_nav == 2:
                 eph.iode = int(self.flt(line, 0))
-                eph.iode = eph.iodc
+                eph.iodc = eph.iode
             else:
                 if (sys == uGNSS.GPS or sys == uGNSS.QZS) and \
                         self.mode_nav > 0:  # CNAV, CNAV/2
-- 
2.43.0


From 91a9d6c892a1d98e5765361f738600c5d8b0b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 041/106] fix: URAI of NavIC L1NV ephemerides

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 2b776bc..551f085 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -630,7 +630,7 @@ class rnxdec:
                 if self.mode_nav == 0:
                     eph.sva = self.flt(line, 0)
                 else:  # L1NV
-                    eph.urai = self.flt(line, 0)
+                    eph.urai[0] = int(self.flt(line, 0))
                 eph.svh = int(self.flt(line, 1))
                 if self.mode_nav == 2 and eph.integ == 1:
                     eph.tgd = self.flt(line, 3)
-- 
2.43.0


From 468a1cb16637dfb4e3403f1f7488a87b6083c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 042/106] fix: transmission time of GPS LNAV ephemerides

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index c4c66e3..4142945 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -462,7 +462,7 @@ class RawNav():
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.mode = 0  # LNAV
 
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = gpst2time(eph.week, tow)
         if toc < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
-- 
2.43.0


From 05ebd489f13c0f80240d22b59a41228eb30679c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 043/106] fix: transmission time of B-CNAV ephemerides in GPS
 time

---
 src/cssrlib/rawnav.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 4142945..dce62b0 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -892,7 +892,7 @@ class RawNav():
             return None
 
         tow = how*3600+soh
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = bdt2gpst(bdt2time(eph.week, tow))
 
         i = self.decode_bds_cnav_eph1(msg, eph, i)
         i = self.decode_bds_cnav_eph2(msg, eph, i)
@@ -1009,7 +1009,7 @@ class RawNav():
         eph.tgd_b = tgd_b2ap*rCST.P2_34
 
         eph.svh = hs
-        eph.tot = bdt2time(eph.week, sow1)
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 2  # B-CNAV2
 
         return eph
@@ -1066,7 +1066,7 @@ class RawNav():
         eph.sisai[0], eph.svh = bs.unpack_from('u5u2', buff, i)
         i += 7
 
-        eph.tot = bdt2time(eph.week, sow1)
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 3  # B-CNAV3
 
         return eph
-- 
2.43.0


From 5ba078866f7043f84c345e2977f389e125e31b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 044/106] fix: clock and orbit epochs of D1/D2 ephemerides in
 GPS time

---
 src/cssrlib/rawnav.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index dce62b0..fd01c1c 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1154,8 +1154,8 @@ class RawNav():
             eph.week += 1
         elif eph.toes < sow1-rCST.HALFWEEK_SEC:
             eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        eph.toc = bdt2gpst(bdt2time(eph.week, toc))
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 1  # IGSO/MEO
         eph.mode = 0
@@ -1273,8 +1273,8 @@ class RawNav():
             eph.week += 1
         elif eph.toes < sow_[0]-302400.0:
             eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        eph.toc = bdt2gpst(bdt2time(eph.week, toc))
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 2  # GEO
         eph.mode = 0
-- 
2.43.0


From dc37fae6457c11a581353c935df7e5df41d54f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 045/106] fix: week of D1/D2 ephemerides across a week boundary

---
 src/cssrlib/rawnav.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index fd01c1c..002887c 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1150,9 +1150,9 @@ class RawNav():
 
         eph.toes = ((toe1 << 15)+toe2)*8.0
         eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
-        if eph.toes > sow1+rCST.HALFWEEK_SEC:
+        if eph.toes < sow1-rCST.HALFWEEK_SEC:
             eph.week += 1
-        elif eph.toes < sow1-rCST.HALFWEEK_SEC:
+        elif eph.toes > sow1+rCST.HALFWEEK_SEC:
             eph.week -= 1
         eph.toc = bdt2gpst(bdt2time(eph.week, toc))
         eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
@@ -1269,9 +1269,9 @@ class RawNav():
         eph.omg = ((omgp9 << 5)+omgp10)*rCST.P2_31*rCST.SC2RAD
 
         eph.tot = bdt2gpst(bdt2time(eph.week, sow_[0]))
-        if eph.toes > sow_[0]+302400.0:
+        if eph.toes < sow_[0]-302400.0:
             eph.week += 1
-        elif eph.toes < sow_[0]-302400.0:
+        elif eph.toes > sow_[0]+302400.0:
             eph.week -= 1
         eph.toc = bdt2gpst(bdt2time(eph.week, toc))
         eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
-- 
2.43.0


From 196724a543ba72eb86a0e6446af8d38c6f39cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 046/106] fix: square root of the semi-major axis of D2
 ephemerides

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 002887c..b7bbdb3 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1227,7 +1227,7 @@ class RawNav():
         # page 6
         i = 160*5
         ep6 = self.getbitu2(buff, i+46, 6, i+60, 16)
-        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, 120, 4)*rCST.P2_19
+        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, i+120, 4)*rCST.P2_19
         eph.A = sqrtA**2
         cicp6 = bs.unpack_from('s10', buff, i+124)[0]
 
-- 
2.43.0


From b68edf51a42db01bb82b9164bac74e0d359b769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 047/106] fix: continuity of pages 1 and 3 of a D2 ephemeris

---
 src/cssrlib/rawnav.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index b7bbdb3..f8c3b0e 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1189,7 +1189,8 @@ class RawNav():
                 return None
             sow_[k] = self.getbitu2(buff, 160*k+18, 8, 160*k+30, 12)
             if k == 2:
-                sow_[k] != sow_[k-2]+6
+                if sow_[k] != sow_[k-2]+6:
+                    return None
             elif k > 0 and sow_[k] != sow_[k-1]+3:
                 return None
 
-- 
2.43.0


From a8be50190361c9568b1e6287a49b5c948fc7e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 048/106] fix: week of the B-CNAV3 ephemeris epoch

---
 src/cssrlib/rawnav.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index f8c3b0e..26c623c 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1044,6 +1044,8 @@ class RawNav():
         eph.sisai = np.zeros(4, dtype=int)
         eph.isc = np.zeros(6)
 
+        eph.week = bs.unpack_from('u13', buff, 512+ofst+26)[0]
+
         # decode MT10
         i = ofst+30
         i = self.decode_bds_cnav_eph1(buff, eph, i)
@@ -1053,9 +1055,7 @@ class RawNav():
         i += 7
 
         # decode MT30
-        i = 512+ofst+26
-        eph.week = bs.unpack_from('u13', buff, i)[0]
-        i += 13+4
+        i = 512+ofst+26+13+4
         i = self.decode_bds_cnav_clk(buff, eph, i)
         eph.tgd = bs.unpack_from('s12', buff, i)[0]*rCST.P2_34  # tgd-B2bI
         i += 12
-- 
2.43.0


From 2109145340975fa412b1b28eddc370b4ec99f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 049/106] fix: y and z axes of the RTCM GLONASS ephemeris

---
 src/cssrlib/rtcm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 65d8739..f43d293 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2631,12 +2631,12 @@ class rtcm(cssr, rtcmUtil):
         geph.vel[0] = xd*rCST.P2_20*1e3
         geph.pos[0] = x*rCST.P2_11*1e3
         geph.acc[0] = xdd*rCST.P2_30*1e3
-        geph.vel[1] = xd*rCST.P2_20*1e3
-        geph.pos[1] = x*rCST.P2_11*1e3
-        geph.acc[1] = xdd*rCST.P2_30*1e3
-        geph.vel[2] = xd*rCST.P2_20*1e3
-        geph.pos[2] = x*rCST.P2_11*1e3
-        geph.acc[2] = xdd*rCST.P2_30*1e3
+        geph.vel[1] = yd*rCST.P2_20*1e3
+        geph.pos[1] = y*rCST.P2_11*1e3
+        geph.acc[1] = ydd*rCST.P2_30*1e3
+        geph.vel[2] = zd*rCST.P2_20*1e3
+        geph.pos[2] = z*rCST.P2_11*1e3
+        geph.acc[2] = zdd*rCST.P2_30*1e3
         geph.gamn = gamn*rCST.P2_40
         geph.taun = taun*rCST.P2_30
         geph.dtaun = dtaun*rCST.P2_30
-- 
2.43.0


From b4c53bef7bfa4374e20296e508f3d38d4425721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 050/106] fix: clock drift rate of RTCM BDS and NavIC
 ephemerides

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f43d293..c1c180f 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2815,7 +2815,7 @@ class rtcm(cssr, rtcmUtil):
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.iode = aode
         toc *= 8.0
-        eph.af2 = af0*rCST.P2_66
+        eph.af2 = af2*rCST.P2_66
         eph.af1 = af1*rCST.P2_50
         eph.af0 = af0*rCST.P2_33
         eph.iodc = aodc
@@ -2866,7 +2866,7 @@ class rtcm(cssr, rtcmUtil):
         eph.week = week
         eph.af0 = af0*rCST.P2_31
         eph.af1 = af1*rCST.P2_43
-        eph.af2 = af0*rCST.P2_55
+        eph.af2 = af2*rCST.P2_55
         eph.sva = ura
         toc *= 16.0
         eph.tgd = tgd*rCST.P2_31
-- 
2.43.0


From 9a8b89ec9828b7c520fe63e88f5a000c486e79d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 051/106] fix: scale factors of the RTCM SBAS ephemeris

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c1c180f..a8bd32b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2927,8 +2927,8 @@ class rtcm(cssr, rtcmUtil):
         seph.acc[0] = ax*0.0000125
         seph.acc[1] = ay*0.0000125
         seph.acc[2] = az*0.0000625
-        seph.af0 = af0*self.P2_31
-        seph.af1 = af1*self.P2_40
+        seph.af0 = af0*rCST.P2_31
+        seph.af1 = af1*rCST.P2_40
         week, tow = time2gpst(self.time)
         tod = (tow//86400)*86400
         seph.t0 = gpst2time(week, toc+tod)
-- 
2.43.0


From bb283b104f0e8ae8e84d0779dc660e3fb8c577a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 052/106] fix: width of Cus of the RTCM BDS ephemeris

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index a8bd32b..f02054a 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2801,8 +2801,8 @@ class rtcm(cssr, rtcmUtil):
         i += 5+17+11+22+24
         aodc, crs, deln, M0, cuc = bs.unpack_from('u5s18s16s32s18', msg, i)
         i += 5+18+16+32+18
-        e, cus, Asq, toe, cic = bs.unpack_from('u32s16u32u17s18', msg, i)
-        i += 32+16+32+17+18
+        e, cus, Asq, toe, cic = bs.unpack_from('u32s18u32u17s18', msg, i)
+        i += 32+18+32+17+18
         Omg0, cis, i0, crc, omg = bs.unpack_from('s32s18s32s18s32', msg, i)
         i += 32+18+32+18+32
         OMGd, tgd1, tgd2, svh = bs.unpack_from('s24s10s10u1', msg, i)
-- 
2.43.0


From f190796b73cc54d635b37fd85f880b025a8b2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 053/106] fix: loss of lock indicator of MSM observations

---
 src/cssrlib/rtcm.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f02054a..1e616e7 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2449,18 +2449,16 @@ class rtcm(cssr, rtcmUtil):
             obs.S[k, :] = cn_
             obs.sat[k] = sat_
 
-            if sat_ in self.lock:
-                for j, ll in enumerate(ll_):
-                    if sig[j] not in self.sig_n:
-                        continue
-                    idx = sig.index(sig[j])
-                    ll_p = self.lock[sat_][j]
-                    if (ll == 0 & ll_p != 0) | ll < ll_p:
-                        obs.lli[k, idx] |= 1
-                    if hf_[j] > 0:
-                        obs.lli[k, idx] |= 3
-
-            self.lock[sat_] = ll_
+            lock_p = self.lock.get(sat_, {})
+            for sig_ in self.sig_n[k]:
+                idx = sig.index(sig_)
+                if ll_[idx] < lock_p.get(sig_, 0):
+                    obs.lli[k, idx] |= 1
+                if hf_[idx] > 0:
+                    obs.lli[k, idx] |= 3
+
+            self.lock[sat_] = {sig_: ll_[sig.index(sig_)]
+                               for sig_ in self.sig_n[k]}
 
         return i, obs
 
-- 
2.43.0


From 05557f1fa08132aef3eb59476afd0980e4efcceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:34 +0000
Subject: [PATCH 054/106] fix: scale factors of the SSR clock rate and
 acceleration

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 1e616e7..28c9b1c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1083,8 +1083,8 @@ class rtcm(cssr, rtcmUtil):
         dclk, ddclk, dddclk = bs.unpack_from('s22s21s27', msg, i)
         i += 70
         self.dclk_n[k] = self.sval(dclk, 22, 0.1e-3)
-        self.ddclk_n[k] = self.sval(ddclk, 21, 0.4e-3)
-        self.dddclk_n[k] = self.sval(dddclk, 27, 4e-6)
+        self.ddclk_n[k] = self.sval(ddclk, 21, 1e-6)
+        self.dddclk_n[k] = self.sval(dddclk, 27, 2e-8)
         return i
 
     def decode_hclk_sat(self, msg, i, k, inet=0):
@@ -4612,8 +4612,8 @@ class rtcme(cssre, rtcmUtil):
         dclk = self.ival(self.lc[inet].dclk[sat], 22, 0.1e-3)
 
         if self.lc[inet].ddclk is not None:
-            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 0.4e-3)
-            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 4e-6)
+            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 1e-6)
+            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 2e-8)
         else:
             ddclk, dddclk = 0, 0
 
-- 
2.43.0


From 6326792877d3b3b66e3cda9fa328032dedd911d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 055/106] fix: high-rate clock correction of any number of
 satellites

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 28c9b1c..34610e7 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1387,6 +1387,7 @@ class rtcm(cssr, rtcmUtil):
         self.iodssr = v['iodssr']
         self.udi[sCType.HCLOCK] = v['udi']
         self.mi = v['mi']
+        self.dclk_n = np.zeros(v['nsat'])
 
         for k in range(v['nsat']):
             i, sat_ = self.decode_sat(msg, i, sys)
-- 
2.43.0


From 9613401ca7cf18fec2bbc5ff63846875c4b60f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 056/106] fix: MSM with more than 64 cells

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 34610e7..e2d542b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2304,7 +2304,7 @@ class rtcm(cssr, rtcmUtil):
         sz = self.nsat*self.nsig
 
         if sz > 64:
-            return -1
+            return -1, None
         ncell = 0
         self.sig_n = []
         for k in range(self.nsat):
-- 
2.43.0


From 62a71819d8441169a16cc4eda915c4fc67b2755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 057/106] fix: rounding of the encoded SSR code bias

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e2d542b..2f581ee 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4697,7 +4697,7 @@ class rtcme(cssre, rtcmUtil):
             i += 5
 
             for rsig_ in cbias:
-                cb = int(cbias[rsig_]/0.01)
+                cb = self.ival(cbias[rsig_], 14, 0.01)
                 code = self.rsig2code(rsig_)
                 bs.pack_into('u5s14', msg, i, code, cb)
                 i += 19
-- 
2.43.0


From 210300a51b86352dd7546a2397e877b8271d1eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 058/106] fix: delays of a changed SBAS grid point mask

---
 src/cssrlib/sbas.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index ac53f93..705a992 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -605,10 +605,8 @@ class sbasDec(cssr):
         self.iodi = iodi
         ngp = len(idx)
 
-        if band not in self.vtec:
+        if band not in self.vtec or len(self.vtec[band]) != ngp:
             self.vtec[band] = np.zeros(ngp)
-
-        if band not in self.givei:
             self.givei[band] = np.zeros(ngp, dtype=int)
 
         return i
-- 
2.43.0


From b222d9af0218b46d49d748ab39f75142f9c4948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 059/106] fix: loss of lock with the half-cycle bit set

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 551f085..465da03 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -946,7 +946,7 @@ class rnxdec:
                     # Convert from string to numerical value
                     #
                     val = 0.0 if not sval else float(sval)
-                    lli = 1 if slli == '1' else 0
+                    lli = int(slli) & 1 if slli.isdigit() else 0
 
                     # Signal index in data structure
                     #
-- 
2.43.0


From 893400a8de53989a5dd19089539807bff1f0a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 060/106] fix: satellite identity of encoded SSR messages

---
 src/cssrlib/rtcm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 2f581ee..d203468 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4555,15 +4555,16 @@ class rtcme(cssre, rtcmUtil):
     def encode_sat(self, msg, i, sat):
         """ encode satellite id """
 
-        sys, prn = sat2prn(sat)
-        svid = prn
+        sys, _ = sat2prn(sat)
+        svid = self.sat2svid(sat)
 
         if self.msgtype == 4076:
             blen = 6
         else:
-            if sys == uGNSS.QZS:
+            if sys == uGNSS.GLO:
+                blen = 5
+            elif sys == uGNSS.QZS:
                 blen = 4
-                svid = prn-192
             else:
                 blen = 6
 
-- 
2.43.0


From 4194a3b0a86a681b729b859e764a3cf12a8e67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:18 +0000
Subject: [PATCH 061/106] fix: satellite count of encoded code bias and URA
 messages

---
 src/cssrlib/rtcm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d203468..d7e7e41 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4539,8 +4539,14 @@ class rtcme(cssre, rtcmUtil):
 
         if self.subtype not in [sCSSR.VTEC, sRTCM.SSR_PBIAS, sRTCM.SSR_STEC,
                                 sRTCM.SSR_TROP]:
+            if self.subtype == sCSSR.URA:
+                sats = self.lc[0].ura
+            elif self.subtype == sCSSR.CBIAS:
+                sats = self.lc[0].cbias
+            else:
+                sats = self.sat_n
             nsat = 0
-            for sat in self.sat_n:
+            for sat in sats:
                 sys_, _ = sat2prn(sat)
                 if sys_ != sys:
                     continue
-- 
2.43.0


From 273a56f3697ec9dc4d2427d899f39bc41ee83130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:22 +0000
Subject: [PATCH 062/106] fix: rounding of encoded grid, yaw and STEC values

---
 src/cssrlib/rtcm.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d7e7e41..eddcf3d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4430,9 +4430,9 @@ class rtcme(cssre, rtcmUtil):
         if self.gtype == 0:  # grid type 0
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
-            alt_i = int((alt+1000)/12.5)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
+            alt_i = round((alt+1000)/12.5)
 
             # Latitude of Reference Point DF+024
             # Longitude of Reference Point DF+025
@@ -4451,9 +4451,9 @@ class rtcme(cssre, rtcmUtil):
                 lon = lon_
                 alt = alt_
 
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
-                dalt_i = int(dalt/12.5)
+                dlat_i = round(dlat/1e-3)
+                dlon_i = round(dlon/1e-3)
+                dalt_i = round(dalt/12.5)
 
                 bs.pack_into('s13s14s9', msg, i, dlat_i, dlon_i, dalt_i)
                 i += 36
@@ -4461,8 +4461,8 @@ class rtcme(cssre, rtcmUtil):
         elif self.gtype == 1:  # grid type 1
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
 
             bs.pack_into('s18s19u12u8', msg, i, lat_i, lon_i,
                          self.ofst, self.ng-1)
@@ -4475,18 +4475,18 @@ class rtcme(cssre, rtcmUtil):
                 lat = lat_
                 lon = lon_
 
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
+                dlat_i = round(dlat/1e-3)
+                dlon_i = round(dlon/1e-3)
                 bs.pack_into('s13s14', msg, i, dlat_i, dlon_i)
                 i += 27
 
         elif self.gtype == 2:  # grid type 2
             gid, ofst, lat0, lon0, alt = grid[0]
 
-            lat_i = int(lat0/1e-3)
-            lon_i = int(lon0/1e-3)
-            dlat_i = int(self.dlat/0.01)
-            dlon_i = int(self.dlon/0.01)
+            lat_i = round(lat0/1e-3)
+            lon_i = round(lon0/1e-3)
+            dlat_i = round(self.dlat/0.01)
+            dlon_i = round(self.dlon/0.01)
 
             bs.pack_into('s18s19u6u6u9u10b1', msg, i, lat_i, lon_i,
                          self.nrow, self.ncol, dlat_i,  dlon_i, self.gma)
@@ -4737,8 +4737,8 @@ class rtcme(cssre, rtcmUtil):
             i += 5
 
             if sat in self.lc[inet].yaw:
-                yaw = int(self.lc[inet].yaw[sat]*256.0)
-                dyaw = int(self.lc[inet].dyaw[sat]*8192.0)
+                yaw = round(self.lc[inet].yaw[sat]*256.0)
+                dyaw = round(self.lc[inet].dyaw[sat]*8192.0)
                 bs.pack_into('u9s8', msg, i, yaw, dyaw)
                 i += 17
 
@@ -4916,7 +4916,7 @@ class rtcme(cssre, rtcmUtil):
                         dlon = grid[j]['lon']-lon0
                         dstec += [dlat*dlon, dlat**2, dlon**2]@ci[3:]
 
-                    res = int(dstec/scl)
+                    res = round(dstec/scl)
                     bs.pack_into(fmt, msg, i, res)
                     i += rlen
 
-- 
2.43.0


From b47c2aa0a4b59e4e5e532d459c5df9fc671c2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 063/106] fix: sign-magnitude fields of RTCM GLONASS ephemeris

---
 src/cssrlib/rtcm.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index eddcf3d..d468895 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -776,6 +776,11 @@ class rtcmUtil:
                 break
         return sys, ssr
 
+    def getbitg(self, buff, pos, len_):
+        """ read a sign-magnitude value """
+        s, v = bs.unpack_from('u1u'+str(len_-1), buff, pos)
+        return -v if s else v
+
     def sat2svid(self, sat):
         """ convert sat number to svid """
         sys, svid = sat2prn(sat)
@@ -2608,13 +2613,24 @@ class rtcm(cssr, rtcmUtil):
         i += 12
         bn, P2, tb = bs.unpack_from('u1u1u7', msg, i)
         i += 9
-        xd, x, xdd = bs.unpack_from('s24s27s5', msg, i)
+        # signed values of GLONASS are in sign-magnitude format
+        xd = self.getbitg(msg, i, 24)
+        x = self.getbitg(msg, i+24, 27)
+        xdd = self.getbitg(msg, i+51, 5)
         i += 56
-        yd, y, ydd = bs.unpack_from('s24s27s5', msg, i)
+        yd = self.getbitg(msg, i, 24)
+        y = self.getbitg(msg, i+24, 27)
+        ydd = self.getbitg(msg, i+51, 5)
         i += 56
-        zd, z, zdd = bs.unpack_from('s24s27s5', msg, i)
+        zd = self.getbitg(msg, i, 24)
+        z = self.getbitg(msg, i+24, 27)
+        zdd = self.getbitg(msg, i+51, 5)
         i += 56
-        P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1s11u2u1s22s5', msg, i)
+        P3 = bs.unpack_from('u1', msg, i)[0]
+        gamn = self.getbitg(msg, i+1, 11)
+        P, ln = bs.unpack_from('u2u1', msg, i+12)
+        taun = self.getbitg(msg, i+15, 22)
+        dtaun = self.getbitg(msg, i+37, 5)
         i += 42
         En, P4, Ft, Nt, M, ad, Na, tauc, N4, taugps, ln = bs.unpack_from(
             'u5u1u4u11u2u1u11s32u5s22u1', msg, i)
-- 
2.43.0


From 2cece8b668702d7dae74d42fcb065b071772a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:14 +0000
Subject: [PATCH 064/106] fix: unsigned eccentricity of LNAV and D2 frames

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 26c623c..11c17a8 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -408,7 +408,7 @@ class RawNav():
         M0 = bs.unpack('s32', bs.pack('u8u24', M0_, M0))[0]
         cuc, e_ = bs.unpack_from('s16u8', buff, i0+32*5+2)
         e = bs.unpack_from('u24', buff, i0+32*6+2)[0]
-        e = bs.unpack('s32', bs.pack('u8u24', e_, e))[0]
+        e = bs.unpack('u32', bs.pack('u8u24', e_, e))[0]
         cus, sa_ = bs.unpack_from('s16u8', buff, i0+32*7+2)
         sa = bs.unpack_from('u24', buff, i0+32*8+2)[0]
         sqrtA = bs.unpack('u32', bs.pack('u8u24', sa_, sa))[0]
@@ -1223,7 +1223,7 @@ class RawNav():
         eph.M0 = self.getbits3(buff, i+50, 2, i+60, 12, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
-        ep5 = bs.unpack_from('s10', buff, i+124)[0]
+        ep5 = bs.unpack_from('u10', buff, i+124)[0]
 
         # page 6
         i = 160*5
-- 
2.43.0


From c1c1615ace4557b30e6eb3cb7db6837698066c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 065/106] fix: coefficients and time of RTCM VTEC messages

---
 src/cssrlib/rtcm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d468895..e5b6734 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1424,19 +1424,19 @@ class rtcm(cssr, rtcmUtil):
             s = np.zeros((n+1, m+1))
             for j in range(m+1):
                 for l_ in range(j, n+1):
-                    c_ = bs.unpack_from('s16', msg, i)
+                    c_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     c[l_, j] = self.sval(c_, 16, 5e-3)
 
             for j in range(1, m+1):
                 for l_ in range(j, n+1):
-                    s_ = bs.unpack_from('s16', msg, i)
+                    s_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     s[l_, j] = self.sval(s_, 16, 5e-3)
 
         self.iodssr_c[sCType.VTEC] = v['iodssr']
         self.lc[inet].cstat |= (1 << sCType.VTEC)
-        self.lc[inet].t0[sCType.VTEC] = self.time
+        self.lc[inet].t0s[sCType.VTEC] = self.time
         self.set_t0(ctype=sCType.VTEC, t=self.time)
 
         return i
-- 
2.43.0


From 137964f10d24f8ffdbfd141addeec0cda08c0227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 066/106] fix: clock epoch of combined RTCM SSR messages

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e5b6734..cc6d29b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1350,6 +1350,7 @@ class rtcm(cssr, rtcmUtil):
         self.lc[inet].cstat |= (1 << sCType.ORBIT)
         self.lc[inet].cstat |= (1 << sCType.CLOCK)
         self.lc[inet].t0s[sCType.ORBIT] = self.time
+        self.lc[inet].t0s[sCType.CLOCK] = self.time
 
         return i
 
-- 
2.43.0


From dd77d59089a9ff596210e377cf698004cdb205ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 067/106] fix: RTCM SSR troposphere message without residuals

---
 src/cssrlib/rtcm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index cc6d29b..98d642a 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3246,6 +3246,9 @@ class rtcm(cssr, rtcmUtil):
         # west-east gradient c10 [m/deg]
         ct[1, 2] = self.sval(ct10w, 15, 0.01e-3)
 
+        ofst, ng = 0, 0
+        rh = rw = None
+
         if rmi:  # residual information part
             ofst, ng, n, m = bs.unpack_from('u12u12u4u4', msg, i)
             i += 32
-- 
2.43.0


From c98058e6a76ec6f92c4a66bf89c4e77cafbe4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:16 +0000
Subject: [PATCH 068/106] fix: header of extended phase bias messages

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 98d642a..4491d60 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1003,6 +1003,7 @@ class rtcm(cssr, rtcmUtil):
             i += 20               
             self.time = gpst2time(self.week, self.tow)
 
+        v = {}
         if self.subtype not in [sRTCM.SSR_PBIAS_EX]:
             udi, mi = bs.unpack_from('u4b1', msg, i)
             i += 5
-- 
2.43.0


From 2eff68d20b0484d7ecc9257e1f559e3d0c34364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 069/106] fix: constellation of unknown SSR message types

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4491d60..bb1030a 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -489,7 +489,7 @@ class rtcmUtil:
                 return uGNSS.NONE
             else:
                 print(f"definition of {msgtype} is missing")
-                # return uGNSS.NONE
+                return uGNSS.NONE
 
             return tbl_t[msgtype]
 
-- 
2.43.0


From a6685541b2d0040288684d09e7b290829cb71dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:22 +0000
Subject: [PATCH 070/106] fix: grid point numbers of SSR grid type 1

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index bb1030a..4a7c1cf 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3118,14 +3118,14 @@ class rtcm(cssr, rtcmUtil):
             self.pos0 = np.array([lat, lon, 0])
             self.ofst = ofst
 
-            for k in range(npnt):
+            for k in range(ofst, ofst+npnt):
                 dlat, dlon = bs.unpack_from('s13s14', msg, i)
                 i += 27
                 dlat_s = self.sval(dlat, 13, 1e-3)
                 dlon_s = self.sval(dlon, 14, 1e-3)
                 lat += dlat_s
                 lon += dlon_s
-                d = np.array([(gid, k, lat, lon, 0)], dtype=dtype0)
+                d = np.array([(gid, k+1, lat, lon, 0)], dtype=dtype0)
                 self.grid = np.append(self.grid, d)
                 self.dpos[k-ofst, :] = (dlat_s, dlon_s, 0)
 
-- 
2.43.0


From ce10079f358ecd6af548ea87ad75839b8b001c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:42 +0000
Subject: [PATCH 071/106] fix: QZSS L1C(P) in the SSR signal tables

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4a7c1cf..4235fe9 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -570,7 +570,7 @@ class rtcmUtil:
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
@@ -929,7 +929,7 @@ class rtcm(cssr, rtcmUtil):
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
-- 
2.43.0


From fd9940fc91ef1c7a1ce123f11792da06831bbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:12 +0000
Subject: [PATCH 072/106] fix: position of the fields of extended integrity
 messages

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4235fe9..ddc8ea5 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3463,7 +3463,7 @@ class rtcm(cssr, rtcmUtil):
         # TTTcomm DFi050
         # Service Provider Solution Type DFi004
         ilvl, ttt, stype = bs.unpack_from('u8u7u15', msg, i)
-        i += 82
+        i += 30
 
         self.integ.ilvl = ilvl
         self.integ.ttt = (ttt+1)*0.1
@@ -3596,7 +3596,7 @@ class rtcm(cssr, rtcmUtil):
         # integrity parameter IOD DFi006
         # GNSS Constellation Mask DFi013
         # Time correlation integrity/continuity flag DFi137
-        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)[0]
+        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)
         i += 23
 
         self.integ.iod_ip = iod_ip
-- 
2.43.0


From b91fa5fa29c74cd5c3ef941857f3ce7302fc3418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 073/106] fix: navigation messages of a second type with the
 same issue

---
 src/cssrlib/qznma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index f0686ae..c43a32f 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -703,7 +703,7 @@ class qznma():
             iodn = navmsg.iodn
             if iodn not in self.navmsg[sat].keys():
                 self.navmsg[sat][iodn] = {}
-                self.navmsg[sat][iodn][mode] = navmsg
+            self.navmsg[sat][iodn][mode] = navmsg
 
     def verify_qzss_nav(self, sat, npr, msg, mode):
         """ verify the navigation messages for QZSS LNAV/CNAV/CNAV2 """
-- 
2.43.0


From b4c129886a3a5a52477ab9f64dacd808c6667d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 074/106] fix: quality index of an exactly representable URA

---
 src/cssrlib/cssrlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 601e0f1..e808b21 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1505,6 +1505,6 @@ class cssre():
         """ convert from quality to quality index (class, value) """
         n3 = np.log(3)
         n_ = np.log(y*1000+1)/n3
-        cls_ = int(n_)
-        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25)
+        cls_ = int(n_+1e-9)
+        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25+1e-6)
         return cls_, val_
-- 
2.43.0


From bf957c5be41f7a02085212a9d41bb9bf7d8c0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 075/106] fix: SP3 accuracy bases kept per product

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index df1f55d..01e2a17 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -46,10 +46,10 @@ class peph:
     svclk = None
     svvel = None
     status = 0
-    scl = [0.0, 0.0]
 
     def __init__(self):
         self.t = None
+        self.scl = [0.0, 0.0]
         self.nmax = 24*12
 
     def parse_satlist(self, line):
-- 
2.43.0


From c2d3d3aabcbcc121d30875e099868697f69f9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:15 +0000
Subject: [PATCH 076/106] fix: hazard categories of EWS specific settings

---
 src/cssrlib/ewss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 5e9e65f..07ca209 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1572,7 +1572,7 @@ class camfDec(ewsDec):
                 d16i = bs.unpack_from('u3', msg, i)[0]
                 self.d16 = self.d16_t[d16i]
 
-            elif hcat == THazard.WINDCHILL:  # Wind chill/frost
+            elif hcat == THazard.WIND_CHILL:  # Wind chill/frost
                 d8i, d6i = bs.unpack_from('u4u4', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d6 = self.d6_t[d6i]
@@ -1589,7 +1589,7 @@ class camfDec(ewsDec):
                 self.d17 = self.d17_t[d17i]
                 self.d13 = self.d13_t[d13i]
 
-            elif hcat == THazard.SNOWSTORM:  # Snow storm/blizzard
+            elif hcat == THazard.SNOW_STORM:  # Snow storm/blizzard
                 d13i, d8i = bs.unpack_from('u4u4', msg, i)
                 self.d13 = self.d13_t[d13i]
                 self.d8 = self.d8_t[d8i]
@@ -1603,7 +1603,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.ASH_FALL:  # Ash fall
                 d20i = bs.unpack_from('u3', msg, i)[0]
                 self.d20 = self.d20_t[d20i]
-            elif hcat == THazard.WINDSURGE:  # Wind/wave/storm surge
+            elif hcat == THazard.WIND_SURGE:  # Wind/wave/storm surge
                 d8i, d5i = bs.unpack_from('u4u3', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d5 = self.d5_t[d5i]
@@ -1613,7 +1613,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.TERRORISM:  # Terrorism
                 d22i = bs.unpack_from('u3', msg, i)[0]
                 self.d22 = self.d22_t[d22i]
-            elif hcat == THazard.FOREST_FIRE:  # Forest fire / risk of fire
+            elif hcat == THazard.RISK_OF_FIRE:  # Forest fire / risk of fire
                 d23i = bs.unpack_from('u3', msg, i)[0]
                 self.d23 = self.d23_t[d23i]
             elif hcat == THazard.CONTAMINATED_WATER:
-- 
2.43.0


From ffdb743300a420fb7e1b2b4ea20195525ab8a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 077/106] fix: categories that share a specific setting

---
 src/cssrlib/ewss.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 07ca209..713077c 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1623,7 +1623,8 @@ class camfDec(ewsDec):
             elif hcat == THazard.UV_RADIATION:  # UV radiation
                 d25i = bs.unpack_from('u4', msg, i)[0]
                 self.d25 = self.d25_t[d25i]
-            elif hcat == THazard.PANDEMIC:  # Risk of infection / pandemic
+            elif hcat in (THazard.PANDEMIC, THazard.RISK_OF_INFECTION):
+                # Risk of infection / pandemic
                 d26i, d35i = bs.unpack_from('u5u6', msg, i)
                 self.d26 = self.d26_t[d26i]
                 self.d35 = self.d35_t[d35i]
@@ -1633,15 +1634,20 @@ class camfDec(ewsDec):
             elif hcat == THazard.AIR_POLLUTION:  # Air pollution
                 d28i = bs.unpack_from('u3', msg, i)[0]
                 self.d28 = self.d28_t[d28i]
-            elif hcat == THazard.MARINE_POLLUTION:  # Marine/river pollution
+            elif hcat in (THazard.MARINE_POLLUTION, THazard.RIVER_POLLUTION):
+                # Marine/river pollution
                 d24i = bs.unpack_from('u3', msg, i)[0]
                 self.d24 = self.d24_t[d24i]
-            elif hcat == THazard.OUTAGE_OF_IT:
+            elif hcat in (THazard.GAS_SUPPLY_OUTAGE, THazard.OUTAGE_OF_IT,
+                          THazard.POWER_OUTAGE,
+                          THazard.EMERGENCY_NUMBER_OUTAGE,
+                          THazard.TELEPHONE_LINE_OUTAGE):
                 # outage of gas supply/IT systems/power systems/
                 # emergency number/telephone line
                 d29i = bs.unpack_from('u5', msg, i)[0]
                 self.d29 = self.d29_t[d29i]
-            elif hcat == THazard.NUCLEAR_HAZARD:
+            elif hcat in (THazard.RADIOLOGICAL_HAZARD, THazard.NUCLEAR_HAZARD,
+                          THazard.NUCLEAR_POWER_ACCIDENT):
                 # Radiological hazard, nuclear hazard and nuclear
                 # power station accident
                 d30i = bs.unpack_from('u4', msg, i)[0]
-- 
2.43.0


From f6671d969804c7f343c1c149ca5c1787709d9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 078/106] fix: monitoring output of international warnings

---
 src/cssrlib/ewss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 713077c..ecc30e6 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1411,6 +1411,7 @@ class camfDec(ewsDec):
         self.sel, self.ver = bs.unpack_from('u1u3', msg, i)
         i += 4
 
+        inst, info, s = 0, 0, ''
         if self.sel == 0:  # international (EU)
             ia, ib = bs.unpack_from('u5u5', msg, i)
             # List A: General required action
-- 
2.43.0


From 45c8fe02b67a4bcf8135044d7f757d72b9e1859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:55 +0000
Subject: [PATCH 079/106] fix: satellite identifiers of QZSS and SBAS

---
 src/cssrlib/gnss.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 5ee5610..e2a7839 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1316,11 +1316,9 @@ def sys2str(sys):
 def sid2prn(sys, sid):
     """ convert satellite id to prn """
     if sys == uGNSS.QZS:
-        prn = sid+rCST.MINPRNQZS-1
-    elif sys == uGNSS.BDS3:
-        prn = sid+rCST.MINPRNBDS3-1
+        prn = sid+uGNSS.MINPRNQZS-1
     elif sys == uGNSS.SBS:
-        prn = sid+rCST.MINPRNSBS-1
+        prn = sid+uGNSS.MINPRNSBS-1
     else:
         prn = sid
     return prn
-- 
2.43.0


From 5bb7ae7d755d802597c027181e7312cb995279f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 080/106] fix: encoding of combined and high-rate clock
 messages

---
 src/cssrlib/rtcm.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index ddc8ea5..247bd5d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4689,6 +4689,35 @@ class rtcme(cssre, rtcmUtil):
 
         return i
 
+    def encode_cssr_hclk(self, msg, i, inet=0):
+        """ encode RTCM High-rate Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_hclk_sat(msg, i, sat)
+
+        return i
+
+    def encode_cssr_comb(self, msg, i, inet=0):
+        """ encode RTCM Combined Orbit and Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_orb_sat(msg, i, sat)
+            i = self.encode_clk_sat(msg, i, sat)
+
+        return i
+
     def encode_cssr_ura(self, msg, i, inet=0):
         """ encode RTCM SSR URA message """
         sys = self.get_ssr_sys(self.msgtype)
-- 
2.43.0


From acd85752fc8cb41510d9c7b976fd772e884b59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:14 +0000
Subject: [PATCH 081/106] fix: SSR grid definition type 2

---
 src/cssrlib/rtcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 247bd5d..3d81043 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3137,7 +3137,6 @@ class rtcm(cssr, rtcmUtil):
             lon0 = self.sval(lon0_, 19, 1e-3)
             dlat = self.sval(dlat_, 9, 0.01)
             dlon = self.sval(dlon_, 10, 0.01)
-            self.grid = np.array()
 
             if gma:
                 latmask = bs.unpack_from('u'+str(nrow), msg, i)[0]
@@ -3154,7 +3153,7 @@ class rtcm(cssr, rtcmUtil):
             else:
                 iex = []
 
-            ii = ofst
+            ii = 0
             self.grid = np.array([], dtype=dtype0)
             for j in range(ncol):
                 for k in range(nrow):
-- 
2.43.0


From 3e21b15163143bf3be058c82ab6be39054a976ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:17 +0000
Subject: [PATCH 082/106] fix: area mask of encoded grid type 2

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 3d81043..07581fa 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4518,8 +4518,8 @@ class rtcme(cssre, rtcmUtil):
                 bs.pack_into('u'+str(self.ncol), msg, i, self.lonmask)
                 i += self.ncol
 
-                ilat, nlat = self.decode_mask(self.latmask, self.nrow, 0)
-                ilon, nlon = self.decode_mask(self.lonmask, self.ncol, 0)
+                nlat = bin(self.latmask).count('1')
+                nlon = bin(self.lonmask).count('1')
                 n = nlat*nlon
                 bs.pack_into('u'+str(n), msg, i, self.egpmask)
                 i += n
-- 
2.43.0


From e606295b67f1030d915e099c6d9cb71626aa963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 083/106] fix: fix: week of the CNAV/2 time of ephemeris

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 11c17a8..a3ada17 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -761,9 +761,9 @@ class RawNav():
 
         eph.mode = 2  # CNAV/2
         eph.tot = gpst2time(eph.week, tow)
-        if toe < tow - rCST.HALFWEEK_SEC:
+        if eph.toes < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
-        elif toe > tow + rCST.HALFWEEK_SEC:
+        elif eph.toes > tow + rCST.HALFWEEK_SEC:
             eph.week -= 1
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = eph.toe
-- 
2.43.0


From 5a5e51ad59af8f8441ef3215fbb02cbd7ecfad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:19 +0000
Subject: [PATCH 084/106] fix: fix: E5a health and data source of Galileo F/NAV
 ephemerides

---
 src/cssrlib/rtcm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 07581fa..5217560 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2742,10 +2742,12 @@ class rtcm(cssr, rtcmUtil):
         eph.toc = gpst2time(eph.week, toc)
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
-        eph.svh = (hs << 7)+(dvs << 6)
         if self.msgtype == 1046:
-            eph.svh |= (hs1 << 1)+(dvs1)
-        eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+            eph.svh = (hs << 7)+(dvs << 6)+(hs1 << 1)+(dvs1)
+            eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        else:
+            eph.svh = (hs << 4)+(dvs << 3)
+            eph.code = (1 << 1)+(1 << 8)
         eph.iodc = eph.iode
 
         eph.mode = 0 if self.msgtype == 1046 else 1
-- 
2.43.0


From d13218c13e4d01d81b1b311c94ea4d3669ed36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 085/106] fix: fix: unit of the interpolated clock deviation

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 01e2a17..00974b8 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -374,7 +374,7 @@ class peph:
         elif c[0] != np.nan and c[1] != np.nan:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1, 3]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             dts[0] = np.nan
 
@@ -419,7 +419,7 @@ class peph:
         elif c[0] != 0.0 and c[1] != 0.0:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             return None, False
 
-- 
2.43.0


From a776e3b45b5709d9bb131687d93e0b01e111eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 086/106] fix: tsunami arrival times

---
 src/cssrlib/ewss.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index ecc30e6..6a27f8d 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -535,7 +535,7 @@ class jmaDec(ewsDec):
             if d == 0 and h == 0 and m == 0 and th == 0 and reg == 0:
                 continue
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            tb = epoch2time([self.year, month, day+d, h, m, 0.0])
             self.tb.append(tb)
 
             self.params.append([th, reg])
@@ -555,6 +555,11 @@ class jmaDec(ewsDec):
         self.it, _, tp = bs.unpack_from('u2u10u3', msg, i)
         i += 15
 
+        ep = time2epoch(self.time)
+        self.year = ep[0]
+        self.month = ep[1]
+        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+
         self.tb = []
         self.params = []
         self.params.append(tp)
@@ -565,7 +570,7 @@ class jmaDec(ewsDec):
             th, reg = bs.unpack_from('u9u7', msg, i)
             i += 16
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            tb = epoch2time([self.year, month, day+d, h, m, 0.0])
             self.tb.append(tb)
             self.params.append([th, reg])
 
@@ -578,11 +583,6 @@ class jmaDec(ewsDec):
                 f"NP Tsunami ({self.it}) {month:2d}/{day:02d} " +
                 f"{hour:2d}:{minute:02d}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-
         return i
 
     def decode_jma_volcano(self, msg, i):
-- 
2.43.0


From c529eaa9b20d8d108d3c73b2b138fc7b38dd0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 087/106] fix: STEC residuals of the gridded correction

---
 src/cssrlib/cssrlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index e808b21..373ac2e 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -948,9 +948,10 @@ class cssr:
         self.lc[inet].s_sz = {}
         
         for sat in self.lc[inet].sat_n:
-            self.lc[inet].dstec[sat] = {}
+            self.lc[inet].dstec[sat] = np.zeros(ng)
             self.lc[inet].s_sz[sat] = sz
 
+        self.lc[inet].flg_stec |= 1  # stec residual term
         self.lc[inet].flg_trop = 3 if dfm['ttype'] > 0 else 0
 
         for j in range(ng):
-- 
2.43.0


From 27725f093c63eff5bd21b70379506a9a753ad059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 088/106] fix: mean anomaly of BeiDou D2 ephemeris has 32 bits

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index a3ada17..ebfb5ff 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1220,7 +1220,7 @@ class RawNav():
         # page 5
         i = 160*4
         cucp5 = bs.unpack_from('u4', buff, i+46)[0]
-        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 12, i+90, 8) * \
+        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 22, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
         ep5 = bs.unpack_from('u10', buff, i+124)[0]
-- 
2.43.0


From 03539cdbaf2476ba18fb4d8915ffa3bb80e3f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:41 +0000
Subject: [PATCH 089/106] fix: read GLONASS L1OC/L3OC records (RINEX 4)

---
 src/cssrlib/rinex.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 465da03..c259185 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -399,7 +399,7 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     t0 = self.flt(line, 3)
                 else:  # L1OC, L3OC
-                    bet_ = self.flt(line, 3)  # clock drift rate
+                    geph.beta = self.flt(line, 3)  # clock drift rate
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
@@ -418,7 +418,7 @@ class rnxdec:
                     if geph.frq > 128:
                         geph.frq -= 256
                 else:  # L1OC
-                    dvalid = int(self.flt(line, 3))
+                    geph.status = int(self.flt(line, 3))  # data validity
 
                 line = fnav.readline()  # line #3
                 pos[2] = self.flt(line, 0)*1e3
@@ -432,9 +432,9 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     geph.age = int(self.flt(line, 3))
                 elif self.mode_nav == 1:  # L1OC
-                    tgd_L2OCp = self.flt(line, 3)  # tgd_L2OCp
+                    geph.isc[1] = self.flt(line, 3)  # tgd_L2OCp
                 elif self.mode_nav == 3:  # L3OC
-                    isc_L3OCp = self.flt(line, 3)  # isc_L3OCp
+                    geph.isc[2] = self.flt(line, 3)  # isc_L3OCp
 
                 # Use GLONASS line #4 only from RINEX v3.05 onwards
                 #
@@ -450,33 +450,33 @@ class rnxdec:
                         if len(line) >= 80:
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
-                        sattype = int(self.flt(line, 0))
-                        src = int(self.flt(line, 1))
+                        geph.sattype = int(self.flt(line, 0))
+                        geph.src = int(self.flt(line, 1))
                         geph.aode = int(self.flt(line, 2))
                         geph.aodc = int(self.flt(line, 3))
 
                         line = fnav.readline()  # line #5
-                        P2 = int(self.flt(line, 0))  # attitude flag
+                        geph.flag = int(self.flt(line, 0))  # attitude flag
                         geph.tin = self.flt(line, 1)  # sec of day, UTC(SU)
                         geph.tau1 = self.flt(line, 2)
                         geph.tau2 = self.flt(line, 3)
 
                         line = fnav.readline()  # line #6
-                        geph.yaw = self.flt(line, 0)
+                        geph.psi = self.flt(line, 0)
                         geph.sn = int(self.flt(line, 1))
                         geph.win = self.flt(line, 2)
                         geph.dw = self.flt(line, 3)
 
                         line = fnav.readline()  # line #7
                         geph.wmax = self.flt(line, 0)
-                        geph.dpoc[0] = self.flt(line, 1)
-                        geph.dpoc[1] = self.flt(line, 2)
-                        geph.dpoc[2] = self.flt(line, 3)
+                        geph.dpos[0] = self.flt(line, 1)
+                        geph.dpos[1] = self.flt(line, 2)
+                        geph.dpos[2] = self.flt(line, 3)
 
                         line = fnav.readline()  # line #8
                         geph.urai[0] = int(self.flt(line, 0))
                         geph.urai[1] = int(self.flt(line, 1))
-                        tot = self.flt(line, 2)
+                        t0 = self.flt(line, 3)
 
                 tod = t0 % 86400.0
                 tof = gpst2time(week, tod + dow*86400.0)
-- 
2.43.0


From 00182e93f5e72cd06e1b45133956e6d5e90198ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:44 +0000
Subject: [PATCH 090/106] fix: set the reference and transmission time of SBAS
 records

---
 src/cssrlib/rinex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index c259185..ecc37ce 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -501,9 +501,12 @@ class rnxdec:
                 acc = np.zeros(3)
 
                 seph.toc = self.decode_time(line, 4)
+                seph.t0 = seph.toc
                 seph.af0 = self.flt(line, 1)
                 seph.af1 = self.flt(line, 2)
                 seph.tot = self.flt(line, 3)
+                week, _ = time2gpst(seph.t0)
+                seph.tof = self.adjday(gpst2time(week, seph.tot), seph.t0)
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
-- 
2.43.0


From b6f77e00dfb7a7290db638d044ae757f3f9d67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 091/106] fix: GLONASS record line 4: keep the health, delay
 sign and accuracy

---
 src/cssrlib/rinex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index ecc37ce..d1be1a0 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -445,9 +445,11 @@ class rnxdec:
                     if self.mode_nav == 0:  # FDMA
                         # b7-8: M, b6: P4, b5: P3, b4: P2, b2-3: P1, b0-1: P
                         geph.status = int(self.flt(line, 0))
-                        geph.dtaun = -self.flt(line, 1)
+                        geph.flag = geph.status
+                        geph.dtaun = self.flt(line, 1)
                         geph.urai[0] = int(self.flt(line, 2))
-                        if len(line) >= 80:
+                        geph.sva = geph.urai[0]
+                        if len(line) >= 80 and line[61:80].strip():
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
                         geph.sattype = int(self.flt(line, 0))
-- 
2.43.0


From 52dfa6f1d61800c7ff707ab47d9df8724999fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 092/106] fix: store the group delay of BeiDou CNAV-3 in tgd

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index d1be1a0..99e3837 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -729,7 +729,7 @@ class rnxdec:
                 if self.mode_nav < 3:  # CNAV-1,2
                     eph.iodc = int(self.flt(line, 3))
                 else:  # CNAV-3
-                    eph.tgd_b = float(self.flt(line, 3))  # tgd_B2bI
+                    eph.tgd = float(self.flt(line, 3))  # tgd_B2bI
 
                 line = fnav.readline()  # line #9
                 tot = self.flt(line, 0)
-- 
2.43.0


From 5c11cbb19b589c1ebb1a10b51b0e2d7c946784ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:55 +0000
Subject: [PATCH 093/106] fix: write the GLONASS message frame time in UTC

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 99e3837..30d44a4 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1388,7 +1388,7 @@ class rnxenc:
             return
 
         ep = time2epoch(gpst2utc(geph.toe))
-        week, tot_ = time2gpst(geph.tof)
+        week, tot_ = time2gpst(gpst2utc(geph.tof))
 
         if geph.mode == 0:
             lbl = "FDMA"
-- 
2.43.0


From 51f92d3ca00be32a75de9b5fe94ce708f3a32a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:58 +0000
Subject: [PATCH 094/106] fix: write NavIC L1NV records

---
 src/cssrlib/rawnav.py | 2 +-
 src/cssrlib/rinex.py  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index ebfb5ff..dfc6e68 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1510,7 +1510,7 @@ class RawNav():
         eph.af2 = af2*rCST.P2_66
         eph.af1 = af1*rCST.P2_50
         eph.af0 = af0*rCST.P2_35
-        eph.urai = urai
+        eph.urai[0] = urai
         eph.sva = self.urai2sva(urai)
 
         # group-delay
diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 30d44a4..3fecf2d 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1355,14 +1355,14 @@ class rnxenc:
                          format(eph.idot, eph.delnd, "", rsf))
                 if rsf == 0:
                     fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19s}\n".
-                             format(float(eph.urai), float(eph.svh), eph.tgd,
-                                    ""))
+                             format(float(eph.urai[0]), float(eph.svh),
+                                    eph.tgd, ""))
                     fh.write("    {:19.12E}{:19.12E}{:19s}{:19s}\n".
                              format(float(eph.isc[5]), float(eph.isc[4]), "",
                                     ""))
                 else:  # rsf = 1
                     fh.write("    {:19.12E}{:19.12E}{:19s}{:19.12E}\n".
-                             format(float(eph.urai), float(eph.svh), "",
+                             format(float(eph.urai[0]), float(eph.svh), "",
                                     eph.tgd))
                     fh.write("    {:19s}{:19s}{:19.12E}{:19.12E}\n".
                              format("", "", float(eph.isc[5]),
-- 
2.43.0


From 6d5439c6157acddbf5e7393c8eb2411794842735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:49 +0000
Subject: [PATCH 095/106] fix: wrap the list of observation codes after every
 13 codes

---
 src/cssrlib/rinex.py | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 3fecf2d..b9f3e62 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1103,37 +1103,21 @@ class rnxenc:
 
             fh.write("{:1s}  {:3d}".format(sys_t[sys], nsig))
 
-            n = 0
+            codes = []
             for k, _ in enumerate(pr):
-                fh.write(" {:3s}".format(pr[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
-                fh.write(" {:3s}".format(cp[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
+                codes += [pr[k], cp[k]]
                 if uTYP.D in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(dp[k].str()))
-                    n += 1
-                    if n == 13:
-                        fh.write("  {:20s}\n{:6s}".format(
-                            "SYS / # / OBS TYPES", ""))
-
+                    codes.append(dp[k])
                 if uTYP.S in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(cn[k].str()))
-                    n += 1
+                    codes.append(cn[k])
 
-                if n == 13:
+            for n, sig in enumerate(codes):
+                if n > 0 and n % 13 == 0:  # continuation line
                     fh.write("  {:20s}\n{:6s}".format(
                         "SYS / # / OBS TYPES", ""))
-                elif n >= nsig-1:
-                    fh.write("  {:s}".format("    "*(13-(nsig % 13))))
-                    fh.write("{:20s}".format("SYS / # / OBS TYPES \n"))
+                fh.write(" {:3s}".format(sig.str()))
+            fh.write("  {:s}{:20s}\n".format("    "*(-len(codes) % 13),
+                                             "SYS / # / OBS TYPES"))
 
         # TBD
         ep = time2epoch(ts)
-- 
2.43.0


From b7512ab8819a95aba3a629cbd780bc14e7851ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 096/106] fix: take the observation epoch from Obs.t and leave
 missing values blank

---
 src/cssrlib/rinex.py | 6 +++---
 src/cssrlib/rtcm.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index b9f3e62..91defa1 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1134,7 +1134,7 @@ class rnxenc:
         fh.flush()
 
     def sval(self, v: float):
-        if v == 0.0:
+        if v == 0.0 or np.isnan(v):
             s = "{:14s}".format("")
         else:
             s = "{:14.3f}".format(v)
@@ -1143,7 +1143,7 @@ class rnxenc:
     def rnx_obs_body(self, obs=None, fh=None):
         """ write RINEX observation message to file """
 
-        ep = time2epoch(obs.time)
+        ep = time2epoch(obs.t)
         nsat = len(obs.sat)
         nsig = obs.P.shape[1]
         fh.write("> {:4d} {:02d} {:02d} {:02d} {:02d} {:010.7f}".
@@ -1161,7 +1161,7 @@ class rnxenc:
                     self.sval(obs.P[k][i]), ""))
 
                 fh.write("{:14s}".format(self.sval(obs.L[k][i])))
-                if obs.L[k][i] == 0.0:
+                if obs.L[k][i] == 0.0 or np.isnan(obs.L[k][i]):
                     fh.write("{:2s}".format(""))
                 else:
                     fh.write("{:1d}{:1d}".format(lli, ssi))
diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 5217560..f0f7dfb 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2402,7 +2402,7 @@ class rtcm(cssr, rtcmUtil):
                 rrf[k] = self.sval(v, 15, 1e-4)
 
         obs = Obs()
-        obs.time = self.time
+        obs.t = obs.time = self.time
 
         obs.P = np.zeros((self.nsat, self.nsig), dtype=np.float64)
         obs.L = np.zeros((self.nsat, self.nsig), dtype=np.float64)
-- 
2.43.0


From 28c8ac52e698176f3f27efde75019bed3f8f10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:56 +0000
Subject: [PATCH 097/106] fix: scale of the rough range of MSM1-3 (DF398, 2^-10
 ms)

---
 src/cssrlib/rtcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f0f7dfb..6d4e2af 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2339,8 +2339,7 @@ class rtcm(cssr, rtcmUtil):
         if msm >= 1 and msm <= 3:
             for k in range(self.nsat):
                 v = bs.unpack_from('u10', msg, i)[0]
-                if v != 2**10-1:
-                    r[k] = v*rms
+                r[k] = v*rCST.P2_10*rms
                 i += 10
         else:
             for k in range(self.nsat):
-- 
2.43.0


From 86252eb143d0bc2a4d12316278fc5ac8b548f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:00 +0000
Subject: [PATCH 098/106] fix: no measurement for satellites without rough
 range

---
 src/cssrlib/rtcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 6d4e2af..9f7d9da 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2344,8 +2344,7 @@ class rtcm(cssr, rtcmUtil):
         else:
             for k in range(self.nsat):
                 v = bs.unpack_from('u8', msg, i)[0]
-                if v != 2**8-1:
-                    r[k] = v*rms
+                r[k] = v*rms if v != 2**8-1 else np.nan
                 i += 8
             if msm == 5 or msm == 7:
                 for k in range(self.nsat):
-- 
2.43.0


From a7c1de6056dd3829858202a12df9331c3f8af276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 099/106] fix: write the yaw angles exactly if the indicator
 announces them

---
 src/cssrlib/rtcm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 9f7d9da..b8fb90c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4785,9 +4785,9 @@ class rtcme(cssre, rtcmUtil):
             bs.pack_into('u5', msg, i, nsig)
             i += 5
 
-            if sat in self.lc[inet].yaw:
-                yaw = round(self.lc[inet].yaw[sat]*256.0)
-                dyaw = round(self.lc[inet].dyaw[sat]*8192.0)
+            if self.subtype != sRTCM.SSR_PBIAS or self.iyaw:
+                yaw = round(self.lc[inet].yaw.get(sat, 0.0)*256.0)
+                dyaw = round(self.lc[inet].dyaw.get(sat, 0.0)*8192.0)
                 bs.pack_into('u9s8', msg, i, yaw, dyaw)
                 i += 17
 
-- 
2.43.0


From ec30e17d2ff5d3a7c35ceec553e69ee1bcaf3aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:22 +0000
Subject: [PATCH 100/106] fix: write the transmission time of BeiDou records in
 BDT

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 91defa1..c8ba52f 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1189,7 +1189,7 @@ class rnxenc:
 
         if sys == uGNSS.BDS:
             ep = time2epoch(gpst2bdt(eph.toc))
-            week, tot_ = time2bdt(eph.tot)
+            week, tot_ = time2bdt(gpst2bdt(eph.tot))
         else:
             ep = time2epoch(eph.toc)
             week, tot_ = time2gpst(eph.tot)
-- 
2.43.0


From 7da2f4e4e71a61a36a890b25f5bc79d3bbc19977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:25 +0000
Subject: [PATCH 101/106] fix: set week and toe of NavIC L1NV records from toc

---
 src/cssrlib/rinex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index c8ba52f..9873d54 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -583,6 +583,7 @@ class rnxdec:
             if sys == uGNSS.IRN and self.mode_nav == 2:
                 eph.iode = int(self.flt(line, 0))
                 eph.iodc = eph.iode
+                eph.week, eph.toes = time2gpst(eph.toc)
             else:
                 if (sys == uGNSS.GPS or sys == uGNSS.QZS) and \
                         self.mode_nav > 0:  # CNAV, CNAV/2
-- 
2.43.0


From 23c133353aee543f93ab10786941b529df64200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:51 +0000
Subject: [PATCH 102/106] fix: skip event records of RINEX observation files

---
 src/cssrlib/rinex.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 9873d54..bfcf1ff 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -883,6 +883,13 @@ class rnxdec:
 
             nsat = int(line[32:35])
 
+            # Skip special event and cycle slip records
+            #
+            if line[31] in '23456':
+                for _ in range(nsat):
+                    self.fobs.readline()
+                continue
+
             year = int(line[2:6])
             month = int(line[7:9])
             day = int(line[10:12])
-- 
2.43.0


From 9c01a45a5778a7319ac7e587206312cae147d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 103/106] fix: compare the SVID of Galileo F/NAV page 1 with
 the satellite

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index dfc6e68..8ea1420 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -296,7 +296,7 @@ class RawNav():
         sid3, iodnav3 = bs.unpack_from('u6u10', buff, 248*2)
         sid4, iodnav4 = bs.unpack_from('u6u10', buff, 248*3)
 
-        if svid != svid1 or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
+        if svid1 != prn or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
             return None
         if iodnav1 != iodnav2 or iodnav1 != iodnav3 or iodnav1 != iodnav4:
             return None
-- 
2.43.0


From f61d0a802420e882f739474ffce421890bfed2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:48 +0000
Subject: [PATCH 104/106] fix: keep the epicentre code of JMA earthquake and
 hypocentre reports

---
 src/cssrlib/ewss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 6a27f8d..542cd0c 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -331,9 +331,9 @@ class jmaDec(ewsDec):
                 s_ += self.pre_t[reg]+" "
             print(s_)
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
+        et = time2epoch(self.time)
+        self.year = et[0]
+        self.month = et[1]
         self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
         self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
 
@@ -390,9 +390,9 @@ class jmaDec(ewsDec):
             print(f"depth={de}km mag={ma:.1f}")
             print(f"epicenter:{self.ep_t[ep]} lat {lat:.4f} lon {lon:.4f}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
+        et = time2epoch(self.time)
+        self.year = et[0]
+        self.month = et[1]
         self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
 
         self.pos = [lat, lon]
-- 
2.43.0


From dcd385198fa64f1f489820aae28571d938e5b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:57 +0000
Subject: [PATCH 105/106] fix: check the SSR issue and keep the time of B2b
 combined messages

---
 src/cssrlib/cssr_bds.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 7d41c8c..0badc6d 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -283,6 +283,10 @@ class cssr_bds(cssr):
         # note: the sign of the clock correction reversed
         self.lc[inet].dclk[sat] = - \
             self.sval(dclk, self.dclk_blen, self.dclk_scl)
+
+        if sat not in self.lc[inet].t0:
+            self.lc[inet].t0[sat] = {}
+        self.lc[inet].t0[sat][sCType.CLOCK] = self.time
         return i
 
     def decode_cssr_clk(self, msg, i, inet=0):
@@ -301,9 +305,6 @@ class cssr_bds(cssr):
             if idx < self.nsat_n:
                 sat = self.sat_n[idx]
                 i = self.decode_cssr_clk_sat(msg, i, inet, sat)
-                if sat not in self.lc[inet].t0:
-                    self.lc[inet].t0[sat] = {}
-                self.lc[inet].t0[sat][sCType.CLOCK] = self.time
 
         self.iodssr_c[sCType.CLOCK] = head['iodssr']
         self.lc[inet].cstat |= (1 << sCType.CLOCK)
@@ -339,17 +340,20 @@ class cssr_bds(cssr):
         sat_n = np.array(self.sat_n)
 
         if numc > 0:
-            tod, _, iodssr, iodp, slot_s = \
-                bs.unpack_from('u17u4u2u4u9', msg, i)
-            i += 36
+            head, i = self.decode_head(msg, i)
+            iodp, slot_s = bs.unpack_from('u4u9', msg, i)
+            i += 13
+            if self.iodssr != head['iodssr'] or self.iodp != iodp:
+                return -1
             for k in range(numc):
                 idx = slot_s+k
                 sat = self.sat_n[idx]
                 i = self.decode_cssr_clk_sat(msg, i, inet, sat)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
+            if self.iodssr != head['iodssr']:
+                return -1
             for k in range(numo):
                 i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
 
@@ -362,8 +366,9 @@ class cssr_bds(cssr):
         sat_n = np.array(self.sat_n)
 
         if numc > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
+            if self.iodssr != head['iodssr']:
+                return -1
             for k in range(numc):
                 slot = bs.unpack_from('u9', msg, i)[0]
                 i += 9
@@ -372,8 +377,9 @@ class cssr_bds(cssr):
                 i = self.decode_cssr_clk_sat(msg, i, inet, sat)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
+            if self.iodssr != head['iodssr']:
+                return -1
             for k in range(numo):
                 i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
 
-- 
2.43.0


From 2b079bfc097cfa447c1081fad4e4bd44bc961615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:52 +0000
Subject: [PATCH 106/106] fix: scale each GLONASS ambiguity with its own
 wavelength

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 1544bbe..fcff488 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -962,7 +962,7 @@ class pppos():
 
                         H[nv, idx_i] = +lami
                         H[nv, idx_j] = -lamj
-                        v[nv] -= lami*(x[idx_i] - x[idx_j])
+                        v[nv] -= lami*x[idx_i] - lamj*x[idx_j]
 
                         # measurement variance
                         Ri[nv] = self.varerr(self.nav, el[i], f)
-- 
2.43.0

