From 4b2130715e3be2e35f661e899745b31cd73101ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 01/46] fix: nonlinear shear strain counted twice in fkG_num
 and in the strain field

The von Karman shear strain is w,x*w,y; the sum over the two products of the
field slope with the amplitude slope counts it twice, so each product takes a
factor 1/2, as already done for exx and eyy.
---
 panels/models/clpt_bardell_field.pyx                | 2 +-
 panels/models/cylshell_clpt_donnell_bardell_num.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell_num.pyx    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index b310687..8cf3a3c 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -502,7 +502,7 @@ cdef void cfstrain(double *c, int m, int n, double a, double b,
                     eyy += c[col+1]*fv[i]*gveta[j]*(2/b) + 1/r*c[col+2]*fw[i]*gw[j] + NLgeom*2/(b*b)*c[col+2]*fw[i]*gweta[j]*weta
                 else:
                     eyy += c[col+1]*fv[i]*gveta[j]*(2/b) + NLgeom*2/(b*b)*c[col+2]*fw[i]*gweta[j]*weta
-                gxy += c[col+0]*fu[i]*gueta[j]*(2/b) + c[col+1]*fvxi[i]*gv[j]*(2/a) + NLgeom*4/(a*b)*(
+                gxy += c[col+0]*fu[i]*gueta[j]*(2/b) + c[col+1]*fvxi[i]*gv[j]*(2/a) + NLgeom*2/(a*b)*(
                                         c[col+2]*fwxi[i]*gw[j]*weta +
                                         wxi*c[col+2]*fw[i]*gweta[j] )
                 kxx += -c[col+2]*fwxixi[i]*gw[j]*4/(a*a)
diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index 2939b5f..4d48145 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -469,7 +469,7 @@ def fkG_num(double [::1] cs, object Finput, object shell,
 
                         exx += cs[col+0]*(2/a)*fAuxi*gAu + 0.5*cs[col+2]*(2/a)*fAwxi*gAw*(2/a)*wxi
                         eyy += cs[col+1]*(2/b)*fAv*gAveta + 1/r*cs[col+2]*fAw*gAw + 0.5*cs[col+2]*(2/b)*fAw*gAweta*(2/b)*weta
-                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
+                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + 0.5*cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + 0.5*cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
                         kxx += -cs[col+2]*(2/a*2/a)*fAwxixi*gAw
                         kyy += -cs[col+2]*(2/b*2/b)*fAw*gAwetaeta
                         kxy += -2*cs[col+2]*(2/a)*fAwxi*(2/b)*gAweta
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 1e19deb..f8526b7 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -470,7 +470,7 @@ def fkG_num(double [::1] cs, object Finput, object shell,
 
                         exx += cs[col+0]*(2/a)*fAuxi*gAu + 0.5*cs[col+2]*(2/a)*fAwxi*gAw*(2/a)*wxi
                         eyy += cs[col+1]*(2/b)*fAv*gAveta + 0.5*cs[col+2]*(2/b)*fAw*gAweta*(2/b)*weta
-                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
+                        gxy += cs[col+0]*(2/b)*fAu*gAueta + cs[col+1]*(2/a)*fAvxi*gAv + 0.5*cs[col+2]*(2/b)*weta*(2/a)*fAwxi*gAw + 0.5*cs[col+2]*(2/a)*wxi*(2/b)*fAw*gAweta
                         kxx += -cs[col+2]*(2/a*2/a)*fAwxixi*gAw
                         kyy += -cs[col+2]*(2/b*2/b)*fAw*gAwetaeta
                         kxy += -2*cs[col+2]*(2/a)*fAwxi*(2/b)*gAweta
-- 
2.43.0


From b666cd307ef900c577968021168be68d66a768aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 02/46] fix: sign of the offset coupling terms of the mass
 matrices

With u = u0 - z*w,x and the laminate occupying z in [d - h/2, d + h/2], the
kinetic energy couples u with w,x (and v with w,y) through -rho*h*d; with the
opposite sign the natural frequencies of a free plate depend on the offset.
---
 panels/models/cylshell_clpt_donnell_bardell.pyx  | 8 ++++----
 panels/models/plate_clpt_donnell_bardell.pyx     | 8 ++++----
 panels/models/plate_clpt_donnell_bardell_num.pyx | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index c800f12..ab5e4d4 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -417,7 +417,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -425,15 +425,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 71b0f50..e0bf76b 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -415,7 +415,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -423,15 +423,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index f8526b7..5657616 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -677,7 +677,7 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+0
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
@@ -687,17 +687,17 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+0
-                                kMv[c] += weight*( 0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+1
-                                kMv[c] += weight*( 0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
-- 
2.43.0


From c36ddf40102c5ec68c9e4e328dd90ae25d66c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 03/46] fix: sign of the curvature term in the numerically
 integrated aerodynamic matrices

The piston theory pressure of a curved panel is beta*w,x - gamma*w, as in the
analytical kernel; fkAx_num added gamma instead of subtracting it.
---
 panels/models/cylshell_clpt_donnell_bardell_num.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell_num.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index 4d48145..a7368a6 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -633,7 +633,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(-fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 5657616..f94484c 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -819,7 +819,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(-fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
-- 
2.43.0


From 2630021380966ba24974d4c4588ca225c7d309ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 04/46] fix: line penalty of prescribed displacements written
 to the u and v amplitudes

fkCld_xcte and fkCld_ycte put the three penalties on the w amplitudes; ku and
kv now restrain u and v, as in fkCpd.
---
 panels/multidomain/connections/kCpd.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/multidomain/connections/kCpd.pyx b/panels/multidomain/connections/kCpd.pyx
index c4563fa..ee1d323 100644
--- a/panels/multidomain/connections/kCpd.pyx
+++ b/panels/multidomain/connections/kCpd.pyx
@@ -256,12 +256,12 @@ def fkCld_xcte(double ku, double kv, double kw, object p, double xp,
                         fBw = f(k, xip, x1w, x1wr, x2w, x2wr)
             
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+0
+                        kCld_xctec[c] = col+0
                         kCld_xctev[c] += ku*b*fAu*fBu*gAugBu/2.
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+1
+                        kCld_xctec[c] = col+1
                         kCld_xctev[c] += kv*b*fAv*fBv*gAvgBv/2.
                         c += 1
                         kCld_xcter[c] = row+2
@@ -380,12 +380,12 @@ def fkCld_ycte(double ku, double kv, double kw, object p, double yp,
                         gBw = f(l, etap, y1w, y1wr, y2w, y2wr)
             
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+0
+                        kCld_yctec[c] = col+0
                         kCld_yctev[c] += ku*a*fAufBu*gAu*gBu/2.
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+1
+                        kCld_yctec[c] = col+1
                         kCld_yctev[c] += kv*a*fAvfBv*gAv*gBv/2.
                         c += 1
                         kCld_ycter[c] = row+2
-- 
2.43.0


From 04cf5d853831fe70293b329e368394c242015f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 05/46] fix: offset coupling of the blade stiffener mass matrix
 was counted twice

The flange at the mean distance df couples u with w,x and v with w,y through
rho*hf*bf*df, consistently with the second moment used in the w-w term.
---
 .../stiffener/models/bladestiff1d_clt_donnell_bardell.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
index 9b56860..15197b4 100644
--- a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
+++ b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
@@ -233,7 +233,7 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+0
                         kMfc[c] = col+2
-                        kMfv[c] += 2*bf*df*fAufBwxi*gAu*gBw*hf*rho
+                        kMfv[c] += bf*df*fAufBwxi*gAu*gBw*hf*rho
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+1
@@ -241,15 +241,15 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+2
-                        kMfv[c] += 2*a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
+                        kMfv[c] += a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+0
-                        kMfv[c] += 2*bf*df*fAwxifBu*gAw*gBu*hf*rho
+                        kMfv[c] += bf*df*fAwxifBu*gAw*gBu*hf*rho
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+1
-                        kMfv[c] += 2*a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
+                        kMfv[c] += a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+2
-- 
2.43.0


From 28af6f81d3dc66bdbe42bfc4530eb6b7de887265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 06/46] fix: BladeStiff1D.calc_kM used a zero base thickness
 even with a base

_rebuild kept the base thickness in a local variable, so that self.hb, passed
to fkMf, was always zero.
---
 panels/stiffener/bladestiff1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 015c9ec..67014a5 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -75,7 +75,7 @@ class BladeStiff1D(object):
         hb = 0.
         bay = self.bay
         if self.bstack is not None:
-            hb = sum(self.bplyts)
+            hb = self.hb = sum(self.bplyts)
             y1 = self.ys - self.bb/2.
             y2 = self.ys + self.bb/2.
             self.base = Shell(a=bay.a, b=bay.b, r=bay.r,
-- 
2.43.0


From 800cacd3daf5560de4b864eddadade91a698905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 07/46] fix: Gauss-point results of a panel group sampled over
 the first panel's dimensions

---
 panels/multidomain/multidomain.py | 33 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a53fe8b..bf12152 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -573,14 +573,15 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            x_panel, y_panel = x_gauss, y_gauss
+            if x_panel is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                x_panel = linspace(0, panel.a, no_grid_x)
+            if y_panel is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_panel = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -644,14 +645,15 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            x_panel, y_panel = x_gauss, y_gauss
+            if x_panel is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                x_panel = linspace(0, panel.a, no_grid_x)
+            if y_panel is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_panel = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -712,14 +714,15 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            x_panel, y_panel = x_gauss, y_gauss
+            if x_panel is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                x_panel = linspace(0, panel.a, no_grid_x)
+            if y_panel is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_panel = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
-- 
2.43.0


From 6973ec5faf04418bb86a52e51002acabd8d6b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 08/46] fix: m or n above 30 overflowed the field function
 buffers

---
 panels/models/clpt_bardell_field.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index 8cf3a3c..dd54088 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -40,6 +40,8 @@ def fuvw(double [::1] c, object s, double [::1] xs, double [::1] ys,
     b = s.b
     m = s.m
     n = s.n
+    if m > NMAX or n > NMAX:
+        raise ValueError('m and n cannot exceed %d' % NMAX)
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
     x1v = s.x1v; x1vr = s.x1vr; x2v = s.x2v; x2vr = s.x2vr
     x1w = s.x1w; x1wr = s.x1wr; x2w = s.x2w; x2wr = s.x2wr
@@ -128,6 +130,8 @@ def fstrain(double [::1] c, object s, double [::1] xs, double [::1] ys, int
     r = s.r
     m = s.m
     n = s.n
+    if m > NMAX or n > NMAX:
+        raise ValueError('m and n cannot exceed %d' % NMAX)
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
     x1v = s.x1v; x1vr = s.x1vr; x2v = s.x2v; x2vr = s.x2vr
     x1w = s.x1w; x1wr = s.x1wr; x2w = s.x2w; x2wr = s.x2wr
@@ -320,6 +324,8 @@ def fg(double[:, ::1] g, double x, double y, object s):
     b = s.b
     m = s.m
     n = s.n
+    if m > NMAX or n > NMAX:
+        raise ValueError('m and n cannot exceed %d' % NMAX)
     cfg(g, m, n, x, y, a, b,
         s.x1u, s.x1ur, s.x2u, s.x2ur,
         s.x1v, s.x1vr, s.x2v, s.x2vr,
-- 
2.43.0


From db3bbd25b1b6015d90ab4c7455f7e020012ae20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 09/46] fix: StiffPanelBay.calc_fext failed for every skin or
 flange force

---
 panels/models/clpt_bardell_field.pyx  |  4 ++--
 panels/stiffpanelbay/stiffpanelbay.py | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index dd54088..662c2e6 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -318,8 +318,8 @@ def fg(double[:, ::1] g, double x, double y, object s):
     # Accessing the contiguous memory layout for C 
     # ::1 at the 2nd position means that the elements in this 2nd dimension will be 1 element apart in memory.
     
-    if s.__class__.__name__ != 'Shell':
-        raise ValueError('A Shell object must be passed')
+    if s.__class__.__name__ not in ('Shell', 'StiffPanelBay'):
+        raise ValueError('A Shell or StiffPanelBay object must be passed')
     a = s.a
     b = s.b
     m = s.m
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0d44397..6f1a4fc 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1447,13 +1447,13 @@ class StiffPanelBay(object):
 
         # punctual forces on skin
         size = dofs*self.m*self.n
-        g = np.zeros((3, size), dtype=DOUBLE)
+        g = np.zeros((5, size), dtype=DOUBLE)
         fext_skin = np.zeros(size, dtype=DOUBLE)
         for i, force in enumerate(self.forces_skin):
             x, y, fx, fy, fz = force
             fg(g, x, y, self)
 
-            fpt = np.array([[fx, fy, fz]])
+            fpt = np.array([[fx, fy, fz, 0, 0]])
             fext_skin += fpt.dot(g).ravel()
 
         fext = fext_skin
@@ -1462,12 +1462,12 @@ class StiffPanelBay(object):
         for s in self.bladestiff2ds:
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_stiffener = np.zeros(size, dtype=DOUBLE)
-            for i, force in enumerate(s.flange.forces):
+            for i, force in enumerate(s.forces_flange):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_stiffener += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_stiffener))
@@ -1476,24 +1476,24 @@ class StiffPanelBay(object):
         for s in self.tstiff2ds:
             # base
             size = s.base.get_size()
-            g_base = np.zeros((3, size), dtype=DOUBLE)
+            g_base = np.zeros((5, size), dtype=DOUBLE)
             fext_base = np.zeros(size, dtype=DOUBLE)
             fg_base = panelmDB.db[s.base.model]['field'].fg
             for i, force in enumerate(s.base.forces):
                 xb, yb, fx, fy, fz = force
                 fg_base(g_base, xb, yb, s.base)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_base += fpt.dot(g_base).ravel()
 
             # flange
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_flange = np.zeros(size, dtype=DOUBLE)
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             for i, force in enumerate(s.flange.forces):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_flange += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_base, fext_flange))
-- 
2.43.0


From 5204ef67b17547f7397e03cdbffd96f0a18e75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 10/46] fix: MultiDomain.calc_kT passed an argument
 Shell.calc_kC does not have

---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index bf12152..9577ab0 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -1017,7 +1017,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kT += p.calc_kC(c=c, size=size, row0=p.row_start, col0=p.col_start,
-                    silent=silent, finalize=False, inc=inc, NLgeom=True)
+                    silent=silent, finalize=False, NLgeom=True)
             kT += p.calc_kG(c=c, size=size, row0=p.row_start,
                     col0=p.col_start, silent=silent, finalize=False, NLgeom=True)
         if finalize:
-- 
2.43.0


From 579eeab6414e9bbddcfec162c969a27212a501be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 11/46] fix: Shell.calc_kC handed the kernel a 1-element vector
 when only ABDnxny is given

---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 59ef4dd..1b499a8 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -440,7 +440,7 @@ class Shell(object):
         ny = self.ny if ny is None else ny
         self.r = self.r if self.r is not None else 0.
 
-        if c is None and ABDnxny is None:
+        if c is None:
             # Empty c if the interest is only on the heterogeneous
             # laminate properties
             c = np.zeros(size, dtype=DOUBLE)
-- 
2.43.0


From d03c44231dbc6cc87bd78fc5dec7e595149c6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 12/46] fix: Shell.calc_kC with NLgeom and a constant membrane
 state passed None to the kernel

---
 panels/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 1b499a8..75d67a4 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -471,6 +471,9 @@ class Shell(object):
             # This calc KG0 - Geo stiff mat at initial membrane stress state (SA formulation paper - eq 12) and adds it to K0 calc earlier
             
             # WHY IS KG0 ADDED TO KC ???????????????????????????
+            if c_cte is None:
+                c_cte = np.zeros(size, dtype=DOUBLE)
+            c_cte = np.ascontiguousarray(c_cte, dtype=DOUBLE)
             if analytical_kG:
                 kC += matrices.fkG0(self.Nxx_cte, self.Nyy_cte, self.Nxy_cte, self, size, row0, col0)
             else:
-- 
2.43.0


From 794a3149647bd5dd2cbb3d68bc014920fc462f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 13/46] fix: Shell.calc_kM used missing or outdated laminate
 properties

---
 panels/shell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/shell.py b/panels/shell.py
index 75d67a4..2a09fcc 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -580,6 +580,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
+        self._rebuild()
         analytical_kM = True
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
-- 
2.43.0


From 9eb9dcd64bd09ea2a13adc7555b0520da7be4723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 14/46] fix: Shell.calc_kA failed when no other matrix was
 calculated before

---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 2a09fcc..2891231 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -634,7 +634,7 @@ class Shell(object):
         """
         msg('Calculating kA... ', level=2, silent=silent)
 
-
+        self._rebuild()
         matrices_num = modelDB.db[self.model]['matrices_num']
 
         if size is None:
-- 
2.43.0


From 949bb3d0b51de4d65a47203a3beffe6a1b0b3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 15/46] fix: unknown penalty types were not rejected

---
 panels/multidomain/connections/penalties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/panels/multidomain/connections/penalties.py b/panels/multidomain/connections/penalties.py
index 5c41cf9..e02af66 100644
--- a/panels/multidomain/connections/penalties.py
+++ b/panels/multidomain/connections/penalties.py
@@ -49,6 +49,8 @@ def calc_kw_tsl(pA, pB, tsl_type):
         tsl_input = 1e4 # N/mm (from a inverse char paper - faulty !!!!)
         # print(tsl_input, pA.a, pA.b)
         kw_tsl = tsl_input/(pA.a * pA.b)  # N/mm^3 (same as kt for SB connection)
+    else:
+        raise ValueError('{} is not a valid tsl_type'.format(tsl_type))
     
     return kw_tsl
 
@@ -133,4 +135,6 @@ def calc_kt_kr(p1, p2, connection_type):
         kt = 4*A22_p1*A11_p2 / ((A22_p1+A11_p2)*(hp1+hp2))
         kr = 4*D22_p1*D11_p2 / ((D22_p1+D11_p2)*(hp1+hp2))
         return kt, kr
+    else:
+        raise ValueError('{} is not a valid connection_type'.format(connection_type))
 
-- 
2.43.0


From 5076e6cceed6d5e935ea42294581a993dcb813b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:51 +0000
Subject: [PATCH 16/46] fix: sub-domain limits of a Shell were ignored by
 calc_kC, calc_kG and calc_kM

---
 panels/shell.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 2891231..05b68f0 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -303,6 +303,12 @@ class Shell(object):
         return self.size
 
 
+    def _is_sub_domain(self):
+        # same criterion as in the numerical integration kernels
+        return ((self.x1 != -1 and self.x2 != -1)
+                or (self.y1 != -1 and self.y2 != -1))
+
+
     def _default_field(self, xs, ys, gridx, gridy):
         if xs is None or ys is None:
             xs = linspace(0, self.a, gridx)
@@ -427,7 +433,8 @@ class Shell(object):
         if ABDnxny is not None:
             analytical_kC = False
         # For NL Geos, KC (and not KC0) needs to be used so only do it numerically
-        if NLgeom:
+        # The analytical integrals cover the whole domain
+        if NLgeom or self._is_sub_domain():
             analytical_kC = False
             analytical_kG = False
 
@@ -520,7 +527,7 @@ class Shell(object):
             c = np.zeros(size, dtype=DOUBLE)
             if any((self.Nxx, self.Nyy, self.Nxy)):
                 msg('NOTE: stress state taken into account using ONLY (Nxx, Nyy, Nxy)', level=3, silent=silent)
-        if NLgeom:
+        if NLgeom or self._is_sub_domain():
             analytical_kG = False
 
         matrices = modelDB.db[self.model]['matrices']
@@ -610,6 +617,8 @@ class Shell(object):
             rho_nxny[:, :] = self.lam.intrho/self.lam.h
         else:
             analytical_kM = False
+        if self._is_sub_domain():
+            analytical_kM = False
 
         if analytical_kM:
             kM = matrices.fkM(self, self.offset, size, row0, col0)
-- 
2.43.0


From 78d8fd86a3f51e51189fa3b54a915618bfa93a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 17/46] fix: aerodynamic matrices were forced to be
 skew-symmetric

---
 panels/models/cylshell_clpt_donnell_bardell_num.pyx | 4 ----
 panels/models/plate_clpt_donnell_bardell_num.pyx    | 8 --------
 panels/multidomain/tstiff2d_1stiff_flutter.py       | 3 +--
 panels/shell.py                                     | 4 ++--
 4 files changed, 3 insertions(+), 16 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index a7368a6..5975639 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -623,10 +623,6 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index f94484c..ef89899 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -809,10 +809,6 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
@@ -923,10 +919,6 @@ def fkAy_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
-
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 8d61feb..4d92903 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -1,7 +1,6 @@
 import numpy as np
 from scipy.sparse import csr_matrix
 
-from structsolve.sparseutils import make_skew_symmetric
 from structsolve import freq, static
 
 from panels.shell import Shell
@@ -343,7 +342,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
 
     assert np.any(np.isnan(kA.data)) == False
     assert np.any(np.isinf(kA.data)) == False
-    kA = csr_matrix(make_skew_symmetric(kA))
+    kA = csr_matrix(kA)
 
     eigvals, eigvecs = freq((k0 + kG + kA), kM, tol=0, sparse_solver=True, silent=True,
              num_eigvalues=25, num_eigvalues_print=5)
diff --git a/panels/shell.py b/panels/shell.py
index 05b68f0..ecc1920 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -8,7 +8,7 @@ from scipy.sparse.linalg import eigs, eigsh
 from scipy.linalg import eig
 from numpy import linspace, deg2rad
 from composites import laminated_plate
-from structsolve.sparseutils import remove_null_cols, make_skew_symmetric, finalize_symmetric_matrix
+from structsolve.sparseutils import remove_null_cols, finalize_symmetric_matrix
 
 from .logger import msg, warn
 from . import modelDB
@@ -683,7 +683,7 @@ class Shell(object):
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
             assert np.any(np.isinf(kA.data)) == False
-            kA = csr_matrix(make_skew_symmetric(kA))
+            kA = csr_matrix(kA)
         self.matrices['kA'] = kA
 
         #NOTE memory cleanup
-- 
2.43.0


From cc838d7a80fc818be0888bd927ff8f794183f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 18/46] fix: Shell.calc_kA kept the first beta, gamma and Mach

A second call after changing V, Mach or rho_air returned the matrix of the
first flow condition.
---
 panels/shell.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index ecc1920..d9bf556 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -658,9 +658,7 @@ class Shell(object):
                 raise ValueError('Mach number cannot be a NoneValue')
             elif self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            Mach = self.Mach if self.Mach != 1 else 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if self.r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -670,15 +668,18 @@ class Shell(object):
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
 
-        self.beta = beta
-        self.gamma = gamma
+        if self.flow.lower() not in ('x', 'y'):
+            raise ValueError('Invalid flow value, must be x or y')
 
+        # the kernels read beta and gamma from the shell, the values given by
+        # the user are restored to not affect the next calculation
+        user_beta, user_gamma = self.beta, self.gamma
+        self.beta, self.gamma = beta, gamma
         if self.flow.lower() == 'x':
             kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
-        elif self.flow.lower() == 'y':
-            kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
         else:
-            raise ValueError('Invalid flow value, must be x or y')
+            kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
+        self.beta, self.gamma = user_beta, user_gamma
 
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
-- 
2.43.0


From 5d097a2c6b966927a3aae8bf88197779ef141513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 19/46] fix: Shell.calc_cA looked for fcA in the wrong module

fcA only exists among the analytical matrices; the result is also returned.
---
 panels/shell.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index d9bf556..8fb2fac 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -695,15 +695,19 @@ class Shell(object):
         return kA
 
 
-    def calc_cA(self, aeromu, silent=True, size=None, finalize=True):
+    def calc_cA(self, aeromu, silent=True, size=None, finalize=True, row0=0,
+            col0=0):
         r"""Calculate the aerodynamic damping matrix using the piston theory
         """
         msg('Calculating cA... ', level=2, silent=silent)
 
+        self._rebuild()
         if size is None:
             size = self.get_size()
-        matrices_num = modelDB.db[self.model]['matrices_num']
-        cA = matrices_num.fcA(aeromu, self, size, 0, 0)
+        elif isinstance(size, str):
+            size = int(size) + self.get_size()
+        matrices = modelDB.db[self.model]['matrices']
+        cA = matrices.fcA(aeromu, self, size, row0, col0)
         cA = cA*(0+1j)
 
         if finalize:
@@ -715,6 +719,8 @@ class Shell(object):
 
         msg('finished!', level=2, silent=silent)
 
+        return cA
+
 
     def uvw(self, c, xs=None, ys=None, gridx=300, gridy=300):
         r"""Calculate the displacement field
-- 
2.43.0


From 8ba1a5fa1b33bfc97faa85f35e3ccff0098e0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 20/46] fix: StiffPanelBay.calc_cA failed for every
 configuration

---
 panels/stiffpanelbay/stiffpanelbay.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 6f1a4fc..b7991c4 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -758,31 +758,21 @@ class StiffPanelBay(object):
     def calc_cA(self, silent=False):
         self._rebuild()
         msg('Calculating cA... ', level=2, silent=silent)
-        a = self.a
-        b = self.b
-        r = self.r
-        m = self.m
-        n = self.n
         size = self.get_size()
 
         if self.beta is None:
             if self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            Mach = self.Mach if self.Mach != 1 else 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
             ainf = self.speed_sound
             aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
         else:
-            beta = self.beta
-            gamma = self.gamma if self.gamma is not None else 0.
             aeromu = self.aeromu if self.aeromu is not None else 0.
 
-        # contributions from panels
+        # Shell.calc_cA always covers the full a x b domain of the bay
         p = self.panels[0]
-        p.calc_cA(size=size, row0=0, col0=0, silent=silent)
+        p.calc_cA(aeromu, size=size, row0=0, col0=0, silent=silent, finalize=False)
         cA = p.matrices['cA']
 
         cA = finalize_symmetric_matrix(cA)
-- 
2.43.0


From 54d162b18d224b7a0e59891a666a7fbf0a5fd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 21/46] fix: StiffPanelBay.calc_kA ignored beta, gamma and
 every panel but the first

---
 panels/stiffpanelbay/stiffpanelbay.py | 44 +++++++++------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index b7991c4..3ec2a62 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -5,7 +5,7 @@ from multiprocessing import cpu_count
 import numpy as np
 from scipy.sparse import csr_matrix
 from numpy import linspace, reshape
-from structsolve.sparseutils import finalize_symmetric_matrix, make_skew_symmetric
+from structsolve.sparseutils import finalize_symmetric_matrix
 
 from panels.logger import msg
 from panels import Shell, modelDB as panelmDB
@@ -696,53 +696,37 @@ class StiffPanelBay(object):
     def calc_kA(self, silent=False):
         self._rebuild()
         msg('Calculating kA... ', level=2, silent=silent)
-        a = self.a
-        b = self.b
+        size = self.get_size()
         r = self.r if self.r is not None else 0.
-        m = self.m
-        n = self.n
 
         if self.beta is None:
             if self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            Mach = self.Mach if self.Mach != 1 else 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
             else:
                 gamma = 0.
-            ainf = self.speed_sound
-            aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
         else:
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
-            aeromu = self.aeromu if self.aeromu is not None else 0.
 
         # contributions from panels
-        #TODO summing up coo_matrix objects may be slow!
-        #FIXME this only works if the first panel represent the full
-        #      stiffpanelbay domain (mainly integration interval, boundary
-        #      conditions)
-        p = self.panels[0]
-        #FIXME the initialization below looks terrible
-        #      we should move as quick as possible to the strategy of using
-        #      classes more to carry data, avoiding these intrincated methods
-        #      shared among classes... (calc_kC, calc_kG etc)
-        p.flow = self.flow
-        p.Mach = self.Mach
-        p.rho_air = self.rho_air
-        p.speed_sound = self.speed_sound
-        p.size = self.size
-        p.V = self.V
-        p.r = self.r
-        p.calc_kA(silent=True, finalize=False)
-        kA = p.matrices['kA']
+        kA = 0.
+        for p in self.panels:
+            # each panel covers its own part of the bay, under the airflow of
+            # the bay
+            panel_flow = p.flow, p.beta, p.gamma
+            p.flow, p.beta, p.gamma = self.flow, beta, gamma
+            p.calc_kA(size=size, row0=0, col0=0, silent=True, finalize=False)
+            p.flow, p.beta, p.gamma = panel_flow
+            #TODO summing up coo_matrix objects may be slow!
+            kA += p.matrices['kA']
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
-        kA = csr_matrix(make_skew_symmetric(kA))
+        kA = csr_matrix(kA)
         self.kA = kA
 
         #NOTE forcing Python garbage collector to clean the memory
-- 
2.43.0


From a19332567f2e15273b6f6bd3754ecfaeebbbf0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 22/46] fix: connections between panels given in reverse order

The two panels were swapped when p1 comes after p2 in the assembly, although
the base-flange and skin-base kernels distinguish them, swapping at the same
time the entries of the connectivity dictionary of the user. Connecting two
edges of the same panel failed.
---
 panels/multidomain/multidomain.py | 47 +++++++++++++------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 9577ab0..613aa2f 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -780,27 +780,11 @@ class MultiDomain(object):
         # Looping through each connection pair 
         for connecti in conn:
             # connecti = ith connection pair
-            p1_temp = connecti['p1']
-            p2_temp = connecti['p2']
-            if p1_temp.col_start < p2_temp.col_start:
-                pA = p1_temp
-                pB = p2_temp
-            elif p1_temp.col_start > p2_temp.col_start:
-                pA = p2_temp
-                pB = p1_temp
-                if connecti['func'] == 'SB':
-                    pass
-                else:
-                    if 'xcte1' in connecti.keys() and 'xcte2' in connecti.keys():
-                        temp_xcte = connecti['xcte1']
-                        connecti['xcte1'] = connecti['xcte2']
-                        connecti['xcte2'] = temp_xcte
-                    # y needs to be tested
-                    if 'ycte1' in connecti.keys() and 'ycte2' in connecti.keys():
-                        temp_ycte = connecti['ycte1']
-                        connecti['ycte1'] = connecti['ycte2']
-                        connecti['ycte2'] = temp_ycte
-            
+            # the connection kernels distinguish the two panels, e.g. base and
+            # flange, so that their order must be kept
+            pA = connecti['p1']
+            pB = connecti['p2']
+
             connection_function = connecti['func'] # Type of connection
             
             if connection_function == 'SSycte':
@@ -815,7 +799,7 @@ class MultiDomain(object):
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
                 # adds the penalty stiffness to ycte of panel 1 and panel 2 coupling position
-                kC_conn += connections.kCSSycte.fkCSSycte12(
+                k12 = connections.kCSSycte.fkCSSycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
                 # adds the penalty stiffness to ycte of panel pB position
@@ -828,7 +812,7 @@ class MultiDomain(object):
                 kC_conn += connections.kCSSxcte.fkCSSxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSSxcte.fkCSSxcte12(
+                k12 = connections.kCSSxcte.fkCSSxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
                 kC_conn += connections.kCSSxcte.fkCSSxcte22(
@@ -841,7 +825,7 @@ class MultiDomain(object):
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                k12 = connections.kCSB.fkCSB12(kt, dsb, pA, pB,
                         size, row0=pA.row_start, col0=pB.col_start)
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -851,7 +835,7 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFycte.fkCBFycte11(
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFycte.fkCBFycte12(
+                k12 = connections.kCBFycte.fkCBFycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
                 kC_conn += connections.kCBFycte.fkCBFycte22(
@@ -863,7 +847,7 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFxcte.fkCBFxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFxcte.fkCBFxcte12(
+                k12 = connections.kCBFxcte.fkCBFxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
                 kC_conn += connections.kCBFxcte.fkCBFxcte22(
@@ -876,7 +860,7 @@ class MultiDomain(object):
                 kC_conn += connections.kCLTxycte.fkCBFxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCLTxycte.fkCBFxycte12(
+                k12 = connections.kCLTxycte.fkCBFxycte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['ycte2'],
                         size, row0=pA.row_start, col0=pB.col_start)
                 kC_conn += connections.kCLTxycte.fkCBFycte22(
@@ -892,7 +876,7 @@ class MultiDomain(object):
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                k12 = connections.kCSB.fkCSB12(kt, dsb, pA, pB,
                         size, row0=pA.row_start, col0=pB.col_start)
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -901,6 +885,13 @@ class MultiDomain(object):
             else:
                 raise ValueError(f'{connection_function} not recognized.')
 
+            # the symmetric matrix is completed from its upper triangle
+            if pA.row_start > pB.row_start:
+                k12 = k12.T
+            elif pA is pB:
+                k12 = k12 + k12.T
+            kC_conn += k12
+
         if finalize:
             kC_conn = finalize_symmetric_matrix(kC_conn)
         self.kC_conn = kC_conn
-- 
2.43.0


From cfccae9f9acad499b4b137b3dca0506085ee8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 23/46] fix: MultiDomain kept the first connection matrix for
 ever

The connectivity passed to calc_kC was ignored when another one had been used
before, as well as any change of the panels; an empty connectivity failed.
---
 panels/multidomain/multidomain.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 613aa2f..f06552b 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -769,13 +769,12 @@ class MultiDomain(object):
             if self.conn is None:
                 raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
-
-        if self.kC_conn is not None:
-            return self.kC_conn
+        elif self.conn is None:
+            self.conn = conn
 
         size = self.get_size()
 
-        kC_conn = 0.
+        kC_conn = csr_matrix((size, size), dtype=DOUBLE)
         
         # Looping through each connection pair 
         for connecti in conn:
@@ -941,8 +940,7 @@ class MultiDomain(object):
 
         # NOTE move this to another class method? it's a bid hidden
         # Adding kC_conn to KC panel
-        kC_conn = self.get_kC_conn(conn=conn)
-        kC += self.kC_conn
+        kC += self.get_kC_conn(conn=conn)
 
         self.kC = kC
         msg('finished!', level=2, silent=silent)
-- 
2.43.0


From 3d578dec878be1a34c14ec4f2e70caed01bfc6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 24/46] fix: amplitude vectors of the wrong size reached the
 native kernels

The kernels have no bounds checking, a shorter vector was read out of bounds.
---
 panels/multidomain/multidomain.py | 6 ++++++
 panels/shell.py                   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index f06552b..6a98a9d 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -382,6 +382,7 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        check_c(np.asarray(c), self.get_size())
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -435,6 +436,7 @@ class MultiDomain(object):
         """
         
         # res = results
+        check_c(np.asarray(c), self.get_size())
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -494,6 +496,7 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        check_c(np.asarray(c), self.get_size())
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -562,6 +565,7 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        check_c(np.asarray(c), self.get_size())
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -632,6 +636,7 @@ class MultiDomain(object):
         
         
         # res = results
+        check_c(np.asarray(c), self.get_size())
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -703,6 +708,7 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        check_c(np.asarray(c), self.get_size())
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
diff --git a/panels/shell.py b/panels/shell.py
index 8fb2fac..7982458 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -754,6 +754,7 @@ class Shell(object):
 
         """
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
 
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         fuvw = modelDB.db[self.model]['field'].fuvw
@@ -800,6 +801,7 @@ class Shell(object):
 
         """
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         fstrain = modelDB.db[self.model]['field'].fstrain
         exx, eyy, gxy, kxx, kyy, kxy = fstrain(c, self, xs, ys, self.out_num_cores, int(NLgeom))
@@ -1211,6 +1213,7 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, size)
         fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
 
         gc.collect()
-- 
2.43.0


From 79811d35ceb3d24a7e440bdd25de834b71dfe7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 25/46] fix: StiffPanelBay fields at given points of different
 number

An array ys shorter than xs was read out of bounds, and 2-D arrays failed.
---
 panels/stiffpanelbay/stiffpanelbay.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 3ec2a62..570d8dd 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -817,10 +817,7 @@ class StiffPanelBay(object):
         a = self.a
         b = self.b
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
 
         if c.shape[0] == self.get_size():
             dofs = panelmDB.db[self.model]['dofs']
@@ -918,10 +915,7 @@ class StiffPanelBay(object):
         else:
             raise ValueError('c must be the full vector of Ritz constants')
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
 
         if region.lower() == 'flange':
             fuvw = panelmDB.db[s.flange.model]['field'].fuvw
-- 
2.43.0


From 9e7d3c82c6c23387908866edeab4eba0aff04f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 26/46] fix: BladeStiff2D with only a base made every
 StiffPanelBay analysis fail

---
 panels/stiffpanelbay/stiffpanelbay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 570d8dd..84b5290 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -218,7 +218,8 @@ class StiffPanelBay(object):
         self.size = dofs*self.m*self.n
 
         for s in self.bladestiff2ds:
-            self.size += s.flange.get_size()
+            if s.flange is not None:
+                self.size += s.flange.get_size()
 
         for s in self.tstiff2ds:
             self.size += s.base.get_size() + s.flange.get_size()
@@ -1428,6 +1429,8 @@ class StiffPanelBay(object):
         # punctual forces on bladestiff2ds
         # flange
         for s in self.bladestiff2ds:
+            if s.flange is None:
+                continue
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
             g_flange = np.zeros((5, size), dtype=DOUBLE)
-- 
2.43.0


From c97754adb00d54552e3772ee769a439f0403aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 27/46] fix: StiffPanelBay.uvw_stiffener failed for every
 stiffener but the first

---
 panels/stiffpanelbay/stiffpanelbay.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 84b5290..921e376 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -894,15 +894,15 @@ class StiffPanelBay(object):
         row_init = dofs*self.m*self.n
 
         # getting array position
-        for i, s in enumerate(self.stiffeners):
-            if i > 0:
-                s_1 = self.stiffeners[i-1]
-                if isinstance(s, BladeStiff2D):
-                    row_init += s_1.get_size()
-            if i == si:
+        for s in self.bladestiff2ds:
+            if s is stiff:
                 break
+            if s.flange is not None:
+                row_init += s.flange.get_size()
 
         if region.lower() == 'flange':
+            if stiff.flange is None:
+                raise ValueError('Stiffener without flange')
             bstiff = stiff.flange.b
             if isinstance(s, BladeStiff2D):
                 row_final = row_init + s.flange.get_size()
-- 
2.43.0


From 3f6389b0502e4be758b0187fcbe2748918111492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 28/46] fix: StiffPanelBay.save failed for every bay with
 panels

The matrices of a Shell are kept in Shell.matrices, kC is not one of its slots.
---
 panels/stiffpanelbay/stiffpanelbay.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 921e376..2d0d3e2 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -119,6 +119,7 @@ class StiffPanelBay(object):
 
     def _clear_matrices(self):
         self.kC = None
+        self.kG = None
         self.kT = None
         self.kM = None
         self.kA = None
@@ -132,9 +133,7 @@ class StiffPanelBay(object):
         self.Ys = None
 
         for panel in self.panels:
-            panel.kC = None
-            panel.kM = None
-            panel.kG = None
+            panel._clear_matrices()
 
         for s in self.bladestiff1ds:
             s.kC = None
-- 
2.43.0


From aef7bc5d9abda6fc304c99eedea453a1009b6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 29/46] fix: BladeStiff1D with only a base required the flange
 width bf

---
 panels/stiffener/bladestiff1d.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 67014a5..fddf360 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -91,16 +91,16 @@ class BladeStiff1D(object):
                     y1=y1, y2=y2)
             self.Asb = self.bb*hb
 
-        #TODO check offset effect on curved panels
-        self.dbf = self.bf/2. + hb + h/2.
-        self.Iyy = self.hf*self.bf**3/12.
-        self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
-
         Asb = self.Asb if self.Asb is not None else 0.
         Asf = self.Asf if self.Asf is not None else 0.
         self.As = Asb + Asf
 
         if self.fstack is not None:
+            #TODO check offset effect on curved panels
+            self.dbf = self.bf/2. + hb + h/2.
+            self.Iyy = self.hf*self.bf**3/12.
+            self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
+
             self.E1 = 0
             #E3 = 0
             self.S1 = 0
-- 
2.43.0


From 5aca00659796c46b037a59251672e7aee58c4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 30/46] fix: BladeStiff2D.calc_kG ignored the displacement
 state c

---
 panels/stiffener/bladestiff2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index f4d0c50..e3d2677 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -182,7 +182,7 @@ class BladeStiff2D(object):
             pass
         if self.flange is not None:
             kG += self.flange.calc_kG(size=size, row0=row0, col0=col0,
-                    silent=True, finalize=False, NLgeom=NLgeom)
+                    silent=True, finalize=False, c=c, NLgeom=NLgeom)
 
         if finalize:
             kG = finalize_symmetric_matrix(kG)
-- 
2.43.0


From f21c1948c7fa3ada980b6176403cdea840ed4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 31/46] fix: calc_fint and the bay calc_fext relied on a
 previous analysis

The model was undefined, or the laminate outdated, when another matrix had not
been calculated right before.
---
 panels/shell.py                       | 1 +
 panels/stiffpanelbay/stiffpanelbay.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 7982458..bd60aa1 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1188,6 +1188,7 @@ class Shell(object):
             The internal force vector
 
         """
+        self._rebuild()
         msg('Calculating internal forces...', level=2, silent=silent)
         model = self.model
         if not model in modelDB.db.keys():
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 2d0d3e2..f60fc14 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1409,6 +1409,7 @@ class StiffPanelBay(object):
             The external force vector
 
         """
+        self._rebuild()
         msg('Calculating external forces...', level=2, silent=silent)
         dofs = panelmDB.db[self.model]['dofs']
         fg = panelmDB.db[self.model]['field'].fg
-- 
2.43.0


From c6300538dedf8cefa304106d4cc8c5f658f58d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 32/46] fix: Shell.save failed after add_distr_pd_fixed_x or
 add_distr_pd_fixed_y

Lambda functions cannot be pickled.
---
 panels/shell.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index bd60aa1..d79098b 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1,5 +1,6 @@
 import gc
 import pickle
+from functools import partial
 from multiprocessing import cpu_count
 
 import numpy as np
@@ -24,6 +25,11 @@ def load(name):
         return pickle.load(open(name + '.Shell', 'rb'))
 
 
+def _scaled(factor, func, pos):
+    # defined here such that the Shell objects can be pickled
+    return factor*func(pos)
+
+
 def check_c(c, size):
     # Conducts a check on c
     if not isinstance(c, np.ndarray):
@@ -1006,15 +1012,15 @@ class Shell(object):
         if (ku is not None) or (funcu is not None): # ku or funcu is specified
             if ku is None or funcu is None: # if atmost 1 is specified for u means u is to be specified, but is currently incomplete
                 raise ValueError('Both ku and funcu must be specified')
-            new_funcu = lambda y: ku*funcu(y) # y is param in ftn 
+            new_funcu = partial(_scaled, ku, funcu) # y is param in ftn 
         if (kv is not None) or (funcv is not None):
             if kv is None or funcv is None:
                 raise ValueError('Both kv and funcv must be specified')
-            new_funcv = lambda y: kv*funcv(y)
+            new_funcv = partial(_scaled, kv, funcv)
         if (kw is not None) or (funcw is not None):
             if kw is None or funcw is None:
                 raise ValueError('Both kw and funcw must be specified')
-            new_funcw = lambda y: kw*funcw(y)
+            new_funcw = partial(_scaled, kw, funcw)
         if cte:
             self.distr_pds.append([x, None, new_funcu, new_funcv, new_funcw])
         else:
@@ -1052,15 +1058,15 @@ class Shell(object):
         if (ku is not None) or (funcu is not None):
             if ku is None or funcu is None:
                 raise ValueError('Both ku and funcu must be specified')
-            new_funcu = lambda x: ku*funcu(x)
+            new_funcu = partial(_scaled, ku, funcu)
         if (kv is not None) or (funcv is not None):
             if kv is None or funcv is None:
                 raise ValueError('Both kv and funcv must be specified')
-            new_funcv = lambda x: kv*funcv(x)
+            new_funcv = partial(_scaled, kv, funcv)
         if (kw is not None) or (funcw is not None):
             if kw is None or funcw is None:
                 raise ValueError('Both kw and funcw must be specified')
-            new_funcw = lambda x: kw*funcw(x)
+            new_funcw = partial(_scaled, kw, funcw)
         if cte:
             self.distr_pds.append([None, y, new_funcu, new_funcv, new_funcw])
         else:
-- 
2.43.0


From af5649ef17504a009f4b2ad76b48282cdbdff1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 33/46] fix: load failed for names containing the file
 extension

---
 panels/shell.py                       | 2 +-
 panels/stiffpanelbay/stiffpanelbay.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index d79098b..8f83659 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -19,7 +19,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.Shell' in name:
+    if name.endswith('.Shell'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.Shell', 'rb'))
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index f60fc14..0d344fa 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -16,7 +16,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.StiffPanelBay' in name:
+    if name.endswith('.StiffPanelBay'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.StiffPanelBay', 'rb'))
-- 
2.43.0


From a82b8eda7a5f55233a667497e907c7453715d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 34/46] fix: MultiDomain.calc_fint failed to add the internal
 forces of the panels

---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 8f83659..c35a89a 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1221,7 +1221,7 @@ class Shell(object):
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
         check_c(c, size)
-        fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
+        fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
 
-- 
2.43.0


From 8510f8a4cb18709b8cf17b9d4da71fda5ec9fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 35/46] fix: MultiDomain.calc_kC and calc_kG rejected NLgeom,
 failing in non-linear analyses

---
 panels/multidomain/multidomain.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 6a98a9d..021e1f0 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -905,7 +905,8 @@ class MultiDomain(object):
         return kC_conn
 
 
-    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.):
+    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.,
+            NLgeom=False):
         """Calculate the constitutive stiffness matrix of the assembly
         --- this is kP (made by diagonally assemblying kP_i from the MD paper)
 
@@ -925,6 +926,9 @@ class MultiDomain(object):
             symmetric, should be ``False`` when assemblying.
         inc : float, optional
             Dummy argument needed for non-linear analyses.
+        NLgeom : bool, optional
+            Flag to indicate if geometrically non-linearities should be
+            considered.
 
         """
         size = self.get_size()
@@ -938,7 +942,7 @@ class MultiDomain(object):
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             # Calc Kc per panel (from the Shell class)
             kC += p.calc_kC(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                    silent=silent, finalize=False) 
+                    silent=silent, finalize=False, NLgeom=NLgeom)
 
         # Make the matrix symm at the end
         if finalize:
@@ -953,7 +957,7 @@ class MultiDomain(object):
         return kC
 
 
-    def calc_kG(self, c=None, silent=False, finalize=True):
+    def calc_kG(self, c=None, silent=False, finalize=True, NLgeom=False):
         """Calculate the geometric stiffness matrix of the assembly
 
         Parameters
@@ -967,6 +971,9 @@ class MultiDomain(object):
         finalize : bool, optional
             Asserts validity of output data and makes the output matrix
             symmetric, should be ``False`` when assemblying.
+        NLgeom : bool, optional
+            Flag to indicate if geometrically non-linearities should be
+            considered.
 
         """
         size = self.get_size()
@@ -979,7 +986,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kG += p.calc_kG(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                            silent=silent, finalize=False)
+                            silent=silent, finalize=False, NLgeom=NLgeom)
         if finalize:
             kG = finalize_symmetric_matrix(kG)
         self.kG = kG
-- 
2.43.0


From ec8217996edd9de290a3622b373c33cd09da4051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 36/46] fix: every panel received the axial load of the last
 panel in the static analyses

---
 panels/multidomain/cylinder.py                 | 2 +-
 panels/multidomain/cylinder_blade_stiffened.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 816182d..0d74630 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -168,7 +168,7 @@ def cylinder_compression_lb_Nxx_from_static(height, r, stack, plyt, laminaprop,
         raise ValueError('The length of "Nxxs" must be the same as "npanels"')
 
     for i, p in enumerate(assy.panels):
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxxs[i], None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxxs[i]: Nxx, None, None)
         p.x2u = 1
 
     fext = assy.calc_fext(silent=True)
diff --git a/panels/multidomain/cylinder_blade_stiffened.py b/panels/multidomain/cylinder_blade_stiffened.py
index b8e25fe..4a098a8 100644
--- a/panels/multidomain/cylinder_blade_stiffened.py
+++ b/panels/multidomain/cylinder_blade_stiffened.py
@@ -229,7 +229,7 @@ def cylinder_blade_stiffened_compression_lb_Nxx_from_static(height, r, stack,
         elif 'blade' in p.group:
             i_blade += 1
             Nxx = Nxxs_blade[i_blade]
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxx: Nxx, None, None)
 
     fext = assy.calc_fext(silent=True)
 
-- 
2.43.0


From 8e48b9fccdd1de96b7428792933762e32da6521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 37/46] fix: cylinder_spla ignored Nxx and passed the callbacks
 in the wrong order

---
 panels/multidomain/cylinder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 0d74630..5693a60 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -220,14 +220,14 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
         p.x2u = 1
 
     for p in assy.panels:
-        p.add_distr_load_fixed_x(p.a, lambda y: p.Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
 
     p_spla = assy.panels[0]
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
 
     assy.conn = conns
-    analysis = Analysis(assy.calc_fext, assy.calc_kC, assy.calc_fint,
-            assy.calc_kT)
+    analysis = Analysis(assy.calc_fext, assy.calc_fint, assy.calc_kC,
+            assy.calc_kG)
     analysis.NL_method = 'NR'
     analysis.modified_NR = False
     analysis.line_search = False
-- 
2.43.0


From d42c2082a8cf3465b303bd95e687ff89cf5f126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 38/46] fix: loads of the stiffened panel assemblies became
 null after the static analysis

---
 panels/multidomain/tstiff2d_1stiff_compression.py | 2 +-
 panels/multidomain/tstiff2d_1stiff_flutter.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/tstiff2d_1stiff_compression.py b/panels/multidomain/tstiff2d_1stiff_compression.py
index 1f6d7c7..4e5f6c1 100644
--- a/panels/multidomain/tstiff2d_1stiff_compression.py
+++ b/panels/multidomain/tstiff2d_1stiff_compression.py
@@ -329,7 +329,7 @@ def tstiff2d_1stiff_compression(a, b, ys, bb, bf, defect_a, rho, plyt,
     if run_static_case:
         fext = np.zeros(size)
         for p in [p07, p08, p09, p14, p15]:
-            p.add_distr_load_fixed_x(0, lambda y: p.Nxx, None, None)
+            p.add_distr_load_fixed_x(0, lambda y, Nxx=p.Nxx: Nxx, None, None)
             fext[p.col_start: p.col_end] = p.calc_fext(silent=True)
 
         incs, cs = static(k0, -fext, silent=True)
diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 4d92903..b5b8c7f 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -320,7 +320,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
         if not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None):
             fext = np.zeros(size)
             for p in [p07, p08, p09, p14, p15]:
-                p.add_distr_load_fixed_x(0, lambda y: p.Nxx, None, None)
+                p.add_distr_load_fixed_x(0, lambda y, Nxx=p.Nxx: Nxx, None, None)
                 fext[p.col_start: p.col_end] = p.calc_fext(silent=True)
 
             incs, cs = static(k0, -fext, silent=True)
-- 
2.43.0


From 877a1187e94bed77356901b0d91d0e7598cea83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 39/46] fix: tstiff2d_1stiff_flutter failed when a load was not
 given

---
 panels/multidomain/tstiff2d_1stiff_flutter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index b5b8c7f..c7d93a4 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -131,6 +131,10 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
     nb = n if nb is None else nb
     mf = m if mf is None else mf
     nf = n if nf is None else nf
+    has_loads = not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None)
+    Nxx_skin = 0. if Nxx_skin is None else Nxx_skin
+    Nxx_base = 0. if Nxx_base is None else Nxx_base
+    Nxx_flange = 0. if Nxx_flange is None else Nxx_flange
     # skin panels
     p01 = Shell(group='skin', Nxx=Nxx_skin, x0=alow+defect, y0=ys+bb/2., a=aup, b=bleft, r=r, m=m, n=n, plyt=plyt, stack=stack_skin, laminaprop=laminaprop, rho=rho, rho_air=rho_air, speed_sound=speed_sound, Mach=Mach, V=air_speed, flow=flow)
     p02 = Shell(group='skin', Nxx=Nxx_skin, x0=alow+defect, y0=ys-bb/2., a=aup, b=bb, r=r, m=m, n=n, plyt=plyt, stack=stack_skin, laminaprop=laminaprop, rho=rho, rho_air=rho_air, speed_sound=speed_sound, Mach=Mach, V=air_speed, flow=flow)
@@ -317,7 +321,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
     k0 = assy.calc_kC(valid_conn)
     c = None
     if run_static_case:
-        if not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None):
+        if has_loads:
             fext = np.zeros(size)
             for p in [p07, p08, p09, p14, p15]:
                 p.add_distr_load_fixed_x(0, lambda y, Nxx=p.Nxx: Nxx, None, None)
-- 
2.43.0


From be328a11472fdff30063563f96ad8190a58bdb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 40/46] fix: degree-of-freedom ranges of the panels became
 outdated when the number of terms changed

---
 panels/multidomain/multidomain.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 021e1f0..7cdce79 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -82,10 +82,15 @@ class MultiDomain(object):
         self.panels = panels
         self.size = None
         self.out_num_cores = 4
-        row0 = 0
-        col0 = 0
         for p in panels:
             assert isinstance(p, Shell) # Check if its Shell obj
+        self._set_ranges()
+
+
+    def _set_ranges(self):
+        row0 = 0
+        col0 = 0
+        for p in self.panels:
             # This actually modifies the shell obj (i.e. passed panels)
             p.row_start = row0 # 1st panel starts at 0,0. Rest start at end of last matrix  --- Assembly of Kp_i from the paper
             p.col_start = col0
@@ -99,6 +104,9 @@ class MultiDomain(object):
         '''
         Size of K of a single panel
         '''
+        # the number of terms may have changed since the last analysis, or the
+        # panels may be shared with another assembly
+        self._set_ranges()
         self.size = sum([3*p.m*p.n for p in self.panels])
         return self.size
 
-- 
2.43.0


From 0e2c9192f4d945f497e8a8a1314b91b9124e2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 41/46] fix: SB_TSL connections relied on a previous analysis
 of the panels

---
 panels/multidomain/multidomain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 7cdce79..830dcbe 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -883,6 +883,8 @@ class MultiDomain(object):
             # Traction Seperation Law introduced at the interface
             elif connection_function == 'SB_TSL':
                 tsl_type = connecti['tsl_type']
+                pA._rebuild()
+                pB._rebuild()
                 kt = connections.calc_kw_tsl(pA, pB, tsl_type)
                 print(kt)
                 
-- 
2.43.0


From 8e7cb9419a5a678e23c29c62e62e39f1184b30d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 42/46] fix: keep the base offset of BladeStiff2D in step with
 the skin thickness

---
 panels/stiffener/bladestiff2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index e3d2677..54a1e4c 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -92,6 +92,7 @@ class BladeStiff2D(object):
             h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
             hb = sum(self.bplyts)
             self.dpb = h/2. + hb/2.
+            self.base.offset = -h/2.-hb/2.
             self.base.lam = laminated_plate(self.bstack, plyts=self.bplyts,
                                             laminaprops=self.blaminaprops,
                                             offset=(-h/2.-hb/2.))
-- 
2.43.0


From a836ab1d5e283366961ac79767f07832aa5077e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 43/46] fix: bend-twist constant of BladeStiff1D condensed with
 the wrong stiffness term

---
 panels/stiffener/bladestiff1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index fddf360..2cd4054 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -109,7 +109,7 @@ class BladeStiff1D(object):
                 if i > 0:
                     yply += self.flam.plies[i-1].h/2. + self.flam.plies[i].h/2.
                 self.E1 += ply.h*(ply.q11L - ply.q12L**2/ply.q22L)
-                self.S1 += -yply*ply.h*(ply.q16L - ply.q12L*ply.q16L/ply.q22L)
+                self.S1 += -yply*ply.h*(ply.q16L - ply.q12L*ply.q26L/ply.q22L)
 
             self.F1 = self.bf**2/12.*self.E1
 
-- 
2.43.0


From db5298d016846fda13a93da08137dc43e91be67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 44/46] fix: stiffeners accept panels that were analysed on
 their own

An analysis of a flat panel stores r = 0, the neighbouring panel still has
r = None, and the assertion panel1.r == panel2.r failed.
---
 panels/stiffener/bladestiff1d.py | 3 ++-
 panels/stiffener/bladestiff2d.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 2cd4054..b4251fa 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -63,7 +63,8 @@ class BladeStiff1D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        # flat panels that were already analysed have r = 0
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.)
 
         if self.fstack is not None:
             self.hf = sum(self.fplyts)
diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index 54a1e4c..f354b68 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -82,7 +82,8 @@ class BladeStiff2D(object):
         assert self.panel1.model == self.panel2.model
         assert self.panel1.m == self.panel2.m
         assert self.panel1.n == self.panel2.n
-        assert self.panel1.r == self.panel2.r
+        # flat panels that were already analysed have r = 0
+        assert (self.panel1.r or 0.) == (self.panel2.r or 0.)
         if self.flange is not None:
             self.flange.lam = laminated_plate(self.flange.stack, plyts=self.flange.plyts,
                                             laminaprops=self.flange.laminaprops)
-- 
2.43.0


From be54ebf8fc375f33a9257bc206a26cd550321493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 45/46] fix: strain contours honour the NLgeom option of
 plot_shell

---
 panels/plot_shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index a164724..3c0bc10 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -107,7 +107,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     if vec in displs:
         shell.uvw(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
     elif vec in strains:
-        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
+        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     elif vec in stresses:
         shell.stress(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     else:
-- 
2.43.0


From b08a73be00f27afc23b6e4b9f2094bce2a2d7c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 46/46] fix: contour plots leave the mesh of the object in step
 with its fields

---
 panels/plot_shell.py                  |  8 +++++---
 panels/stiffpanelbay/stiffpanelbay.py | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index 3c0bc10..124b61e 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -99,6 +99,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     msg('Plotting contour...')
 
     fields_bkp = deepcopy(shell.fields)
+    mesh_bkp = deepcopy(shell.plot_mesh)
 
     msg('Computing field variables...', level=1)
     displs = ['u', 'v', 'w', 'phix', 'phiy']
@@ -207,9 +208,10 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
                     bbox_inches='tight', pad_inches=0.05, dpi=dpi)
         plt.close()
 
-    for k, v in fields_bkp.items():
-        if v is not None:
-            shell.fields[k] = v
+    # the fields of the object and the mesh they belong to
+    if mesh_bkp['Xs'] is not None:
+        shell.fields.update(fields_bkp)
+        shell.plot_mesh.update(mesh_bkp)
 
     msg('finished!')
 
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0d344fa..200a42e 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1036,6 +1036,7 @@ class StiffPanelBay(object):
 
         ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
                                               self.phix, self.phiy)
+        Xsbkp, Ysbkp = self.Xs, self.Ys
 
         import matplotlib
         import matplotlib.pyplot as plt
@@ -1073,8 +1074,8 @@ class StiffPanelBay(object):
             else:
                 raise ValueError('ax must be an Axes object')
 
-        x = Ys
-        y = Xs
+        x = Ys.copy()
+        y = Xs.copy()
 
         if deform_u:
             if vec in displs:
@@ -1136,6 +1137,9 @@ class StiffPanelBay(object):
                         bbox_inches='tight', pad_inches=0.05, dpi=dpi)
             plt.close()
 
+        if Xsbkp is not None:
+            self.Xs = Xsbkp
+            self.Ys = Ysbkp
         if ubkp is not None:
             self.u = ubkp
         if vbkp is not None:
@@ -1258,6 +1262,7 @@ class StiffPanelBay(object):
 
         ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
                                               self.phix, self.phiy)
+        Xsbkp, Ysbkp = self.Xs, self.Ys
 
         import matplotlib.pyplot as plt
         import matplotlib
@@ -1296,8 +1301,8 @@ class StiffPanelBay(object):
             else:
                 raise ValueError('ax must be an Axes object')
 
-        x = Ys
-        y = Xs
+        x = Ys.copy()
+        y = Xs.copy()
 
         if deform_u:
             if vec in displs:
@@ -1360,6 +1365,9 @@ class StiffPanelBay(object):
                         bbox_inches='tight', pad_inches=0.05, dpi=dpi)
             plt.close()
 
+        if Xsbkp is not None:
+            self.Xs = Xsbkp
+            self.Ys = Ysbkp
         if ubkp is not None:
             self.u = ubkp
         if vbkp is not None:
-- 
2.43.0

