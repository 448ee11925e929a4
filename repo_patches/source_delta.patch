From 63c5075b4d490c8a0d09df9ba36370154e1f9de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 01/53] fix: den-g5 divides by the scale factor inside the
 integrated potential

The potential carries 1/a(z), as in every other term with g5; den-g5 multiplied by a(z).
---
 src/functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 464dcaa..bad1cc4 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3151,13 +3151,13 @@ double functions_single_integrated(
                 chi2*b1*coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
-               *coffe_interp_spline(&bg->D1, z2)*coffe_interp_spline(&bg->a, z2)
+               *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
                 chi1*b2*coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
-               *coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->a, z1)
+               *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
     }
-- 
2.43.0


From 43f33998ec29bcfcdee7fa103303c40d11dbd64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 02/53] fix: cross terms of d1 with d2 and g1-g5 carry d1's
 prefactor G

d1 is weighted by G in d1-d1, den-d1, rsd-d1 and d1-len; the other cross terms dropped it.
---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index bad1cc4..6e74cba 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -1222,9 +1222,9 @@ double functions_nonintegrated(
         par->correlation_contrib.d2
     ){
         result += -(
-                (3 - fevo2)*curlyH1*pow(curlyH2, 2)*f1*f2*(chi2*costheta - chi1)
+                (3 - fevo2)*curlyH1*pow(curlyH2, 2)*f1*f2*G1*(chi2*costheta - chi1)
                 +
-                (3 - fevo1)*curlyH2*pow(curlyH1, 2)*f2*f1*(chi1*costheta - chi2)
+                (3 - fevo1)*curlyH2*pow(curlyH1, 2)*f2*f1*G2*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep);
     }
@@ -1234,9 +1234,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g1
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(1 + G2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*G1*(1 + G2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(1 + G1)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*G2*(1 + G1)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1246,9 +1246,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g2
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(5*s2 - 2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*G1*(5*s2 - 2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(5*s1 - 2)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*G2*(5*s1 - 2)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1258,9 +1258,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g3
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(f2 - 1.)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*G1*(f2 - 1.)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(f1 - 1.)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*G2*(f1 - 1.)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -3225,11 +3225,11 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*coffe_interp_spline(&bg->G1, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
@@ -3242,13 +3242,13 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)
+                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*coffe_interp_spline(&bg->G1, z1_const)
                *coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
+                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*coffe_interp_spline(&bg->G2, z2_const)
                *coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
-- 
2.43.0


From bdda4c7623ae0b3cd38631264507c223f5204128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 03/53] fix: len-d1 uses the biases of the right populations

With d1 at the second point the Doppler prefactor is the second population's and the
magnification bias the first population's.
---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 6e74cba..89c0f1d 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -2559,8 +2559,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2643,7 +2643,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2697,8 +2697,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2773,7 +2773,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2860,8 +2860,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2906,7 +2906,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2950,8 +2950,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2987,7 +2987,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
-- 
2.43.0


From 194b4236fe1990ffe2ce44bbe34eea17d75a8224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 04/53] fix: g1-len, g2-len and g3-len include 1/a of the local
 potential

---
 src/functions.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 89c0f1d..711c928 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3038,7 +3038,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3048,7 +3048,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3068,7 +3068,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3078,7 +3078,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3098,7 +3098,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3108,7 +3108,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
-- 
2.43.0


From e96e86ac4f9df3fc1557a352f4b968ff7d390f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 05/53] fix: len-g5 integrates H(f - 1), not H(H - 1)

---
 src/functions.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 711c928..4a9a68f 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3927,7 +3927,7 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3936,7 +3936,7 @@ double functions_double_integrated(
                     )
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3950,13 +3950,13 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
-- 
2.43.0


From c574df4dec0b4f7408ddea3c3234bdeb5ef18224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 06/53] fix: setters discard every cached result that depends
 on what they set

---
 python/coffe/coffe.pyx | 75 ++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2dc8a57..094f7d8 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -981,10 +981,7 @@ cdef class Coffe:
         ccoffe.coffe_average_covariance_free(&self._average_covariance_multipoles)
 
 
-    def _free_except_parameters(self):
-        self._free_background()
-        self._free_power_spectrum()
-        self._free_integrals()
+    def _free_results(self):
         self._free_corrfunc()
         self._free_multipoles()
         self._free_average_multipoles()
@@ -992,6 +989,13 @@ cdef class Coffe:
         self._free_average_covariance_multipoles()
 
 
+    def _free_except_parameters(self):
+        self._free_background()
+        self._free_power_spectrum()
+        self._free_integrals()
+        self._free_results()
+
+
     def __dealloc__(self):
         self._free_except_parameters()
         ccoffe.coffe_parameters_free(&self._parameters)
@@ -1581,8 +1585,7 @@ cdef class Coffe:
         self._parameters.sep = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.sep_len):
             self._parameters.sep[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     @property
@@ -1742,8 +1745,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def galaxy_bias2(self, z : float):
@@ -1775,8 +1777,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def galaxy_bias3(self, z : float):
@@ -1797,8 +1798,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def galaxy_bias4(self, z : float):
@@ -1819,8 +1819,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def magnification_bias1(self, z : float):
@@ -1852,8 +1851,9 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        # the background contains functions of this bias
+        self._free_background()
+        self._free_results()
 
 
     def magnification_bias2(self, z : float):
@@ -1885,8 +1885,9 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        # the background contains functions of this bias
+        self._free_background()
+        self._free_results()
 
 
     def evolution_bias1(self, z : float):
@@ -1906,8 +1907,9 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        # the background contains functions of this bias
+        self._free_background()
+        self._free_results()
 
 
     def evolution_bias2(self, z : float):
@@ -1927,8 +1929,9 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        # the background contains functions of this bias
+        self._free_background()
+        self._free_results()
 
 
     @property
@@ -1965,6 +1968,7 @@ cdef class Coffe:
         for i in range(self._parameters.multipole_values_len):
             self._parameters.multipole_values[i] = temp[i]
         # we need to free the integrals since the flat-sky ones may depend on them
+        self._free_integrals()
         self._free_multipoles()
         self._free_average_multipoles()
         self._free_covariance_multipoles()
@@ -2004,9 +2008,9 @@ cdef class Coffe:
         self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.z_mean_len):
             self._parameters.z_mean[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
+        # the divergent integrals depend on the redshifts
+        self._free_integrals()
+        self._free_results()
 
     @property
     def z_min(self):
@@ -2040,10 +2044,9 @@ cdef class Coffe:
         self._parameters.zmin = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmin_len):
             self._parameters.zmin[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        # the divergent integrals depend on the redshifts
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2078,10 +2081,9 @@ cdef class Coffe:
         self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        # the divergent integrals depend on the redshifts
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2430,9 +2432,9 @@ cdef class Coffe:
         self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.deltaz_len):
             self._parameters.deltaz[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
+        # the divergent integrals depend on the redshifts
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2993,6 +2995,7 @@ cdef class Coffe:
         free(y_norm)
 
         self._free_integrals()
+        self._free_results()
 
 
     def comoving_distance(self, z : float):
-- 
2.43.0


From 37be291ce8f50e8c73b1883a87d5c84083790b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 07/53] fix: reading the parameters leaves results and input
 power spectrum alone

---
 python/coffe/coffe.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 094f7d8..364c8ed 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1148,11 +1148,15 @@ cdef class Coffe:
             for key in dir(self.__class__) \
             if key != 'parameters' and hasattr(getattr(self.__class__, key), '__set__')
         }
+        # which of the properties are writable is found out on another instance,
+        # since setting any of them on this one discards what it has computed
+        # (and its input power spectrum)
+        other = self.__class__()
         writable = {}
         for key in properties:
             try:
-                setattr(self, key, getattr(self, key))
-                writable[key] = getattr(self, key)
+                setattr(other, key, getattr(other, key))
+                writable[key] = properties[key]
             except AttributeError:
                 pass
         return writable
-- 
2.43.0


From 87fd4f337d71abb2d2bffc6aa3541d49f62bb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 08/53] fix: a parameter set to a value close to the current
 one is set

---
 python/coffe/coffe.pyx | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 364c8ed..357fa5c 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1187,7 +1187,7 @@ cdef class Coffe:
     @omega_cdm.setter
     def omega_cdm(self, value):
         _check_parameter('omega_cdm', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_cdm):
+        if value != self.omega_cdm:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
@@ -1215,7 +1215,7 @@ cdef class Coffe:
     @omega_m.setter
     def omega_m(self, value):
         _check_parameter('omega_m', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_m):
+        if value != self.omega_m:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_gamma)
             self._parameters.Omega0_m = value / self._coeff
@@ -1236,7 +1236,7 @@ cdef class Coffe:
     @omega_baryon.setter
     def omega_baryon(self, value):
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_baryon):
+        if value != self.omega_baryon:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_cdm, self.omega_gamma)
             self._parameters.Omega0_baryon = value / self._coeff
@@ -1256,7 +1256,7 @@ cdef class Coffe:
     @omega_gamma.setter
     def omega_gamma(self, value):
         _check_parameter('omega_gamma', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_gamma):
+        if value != self.omega_gamma:
             self._check_omegas(value, self.omega_m)
             self._parameters.Omega0_gamma = value / self._coeff
             self._balance_content()
@@ -1283,7 +1283,7 @@ cdef class Coffe:
     @h.setter
     def h(self, value):
         _check_parameter('h', value, (int, float), 0, 100)
-        if not np.allclose(value, self.h):
+        if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
             self._balance_content()
@@ -1305,7 +1305,7 @@ cdef class Coffe:
     @w0.setter
     def w0(self, value):
         _check_parameter('w0', value, (int, float), -100, 100)
-        if not np.allclose(value, self.w0):
+        if value != self.w0:
             self._parameters.w0 = value
             self._free_except_parameters()
 
@@ -1405,7 +1405,7 @@ cdef class Coffe:
     @wa.setter
     def wa(self, value):
         _check_parameter('wa', value, (int, float), -100, 100)
-        if not np.allclose(value, self.wa):
+        if value != self.wa:
             self._parameters.wa = value
             self._free_except_parameters()
 
@@ -1421,7 +1421,7 @@ cdef class Coffe:
     @n_s.setter
     def n_s(self, value):
         _check_parameter('n_s', value, (int, float), -100, 100)
-        if not np.allclose(value, self.n_s):
+        if value != self.n_s:
             self._parameters.n_s = value
             self._free_except_parameters()
 
@@ -1437,7 +1437,7 @@ cdef class Coffe:
     @sigma8.setter
     def sigma8(self, value):
         _check_parameter('sigma8', value, (int, float), -100, 100)
-        if not np.allclose(value, self.sigma8):
+        if value != self.sigma8:
             self._parameters.sigma8 = value
             self._free_power_spectrum()
             self._free_integrals()
@@ -1480,7 +1480,7 @@ cdef class Coffe:
     @T_cmb.setter
     def T_cmb(self, value):
         _check_parameter('T_cmb', value, (int, float), -100, 100)
-        if not np.allclose(value, self.T_cmb):
+        if value != self.T_cmb:
             self._parameters.T_cmb = value
             self._free_except_parameters()
 
@@ -1496,7 +1496,7 @@ cdef class Coffe:
     @N_ur.setter
     def N_ur(self, value):
         _check_parameter('N_ur', value, (int, float), -100, 100)
-        if not np.allclose(value, self.N_ur):
+        if value != self.N_ur:
             self._parameters.N_ur = value
             self._free_except_parameters()
 
@@ -1513,7 +1513,7 @@ cdef class Coffe:
     @m_ncdm.setter
     def m_ncdm(self, value):
         _check_parameter('m_ncdm', value, (int, float), -100, 100)
-        if not np.allclose(value, self.m_ncdm):
+        if value != self.m_ncdm:
             self._parameters.m_ncdm = value
             # see eq. (19) of https://arxiv.org/abs/1212.6154
             # note that little omega(nu) doesn't change if we change h, but big
@@ -1534,7 +1534,7 @@ cdef class Coffe:
     @YHe.setter
     def YHe(self, value):
         _check_parameter('YHe', value, (int, float), -100, 100)
-        if not np.allclose(value, self.YHe):
+        if value != self.YHe:
             self._parameters.YHe = value
             self._free_except_parameters()
 
@@ -1550,7 +1550,7 @@ cdef class Coffe:
     @N_ncdm.setter
     def N_ncdm(self, value):
         _check_parameter('N_ncdm', value, int, -100, 100)
-        if not np.allclose(value, self.N_ncdm):
+        if value != self.N_ncdm:
             self._parameters.N_ncdm = value
             self._free_except_parameters()
 
-- 
2.43.0


From c7164401e66159d9ad86c3d607fb8294388f58f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 09/53] fix: NaN is refused by the range checks

---
 python/coffe/coffe.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 357fa5c..eaaff7d 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -98,12 +98,12 @@ def _check_parameter(
             f'Expected {kind}, got {type(value)}'
         )
 
-    if xmin is not None and value < xmin:
+    if xmin is not None and not value >= xmin:
         raise ValueError(
             f'Value {value} smaller than xmin ({xmin})'
         )
 
-    if xmax is not None and value > xmax:
+    if xmax is not None and not value <= xmax:
         raise ValueError(
             f'Value {value} larger than xmax ({xmax})'
         )
@@ -1059,7 +1059,7 @@ cdef class Coffe:
 
     @staticmethod
     def _check_omegas(*omegas):
-        if np.sum(np.array([_ for _ in omegas])) > 1:
+        if not np.sum(np.array([_ for _ in omegas])) <= 1:
             raise ValueError(
                 f'Cannot satisfy the condition Omega_de >= 0'
             )
-- 
2.43.0


From b6c4b5b72495e051cec5ed68b5421b1d5e1b6d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 10/53] fix: omega_m and omega_cdm account for neutrinos in the
 setters of omega_cdm and h

---
 python/coffe/coffe.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index eaaff7d..a8b775a 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1191,7 +1191,7 @@ cdef class Coffe:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
-            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon
+            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon + self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
@@ -1286,6 +1286,9 @@ cdef class Coffe:
         if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
+            # little omega(nu) doesn't change if we change h, but big omega(nu) does
+            self._parameters.Omega0_nu = self._parameters.m_ncdm / 93.14 / self.h / self.h
+            self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
-- 
2.43.0


From 40eed5ff332216be087f6a1877ed1d833871a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 11/53] fix: integrals_fftlog_sampling can be set

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index a8b775a..e48b7ce 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1660,7 +1660,7 @@ cdef class Coffe:
             1000000,
         )
 
-        self._parameter.bessel_bins = int(value)
+        self._parameters.bessel_bins = int(value)
         self._free_except_parameters()
 
 
-- 
2.43.0


From ef7abad02efb3395c58d6f550892bea244ab0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 12/53] fix: contributions, precision settings and recompute
 keep the power spectrum set by the user

---
 python/coffe/coffe.pyx | 43 ++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index e48b7ce..eb99fdd 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1661,7 +1661,9 @@ cdef class Coffe:
         )
 
         self._parameters.bessel_bins = int(value)
-        self._free_except_parameters()
+        self._free_background()
+        self._free_integrals()
+        self._free_results()
 
 
     def integral(self, *, r : float, n : int, l : int):
@@ -2467,7 +2469,9 @@ cdef class Coffe:
         else:
             self._parameters.integration_1d_type = _invert_dict(_allowed_integration_1d_types)[value]
 
-        self._free_except_parameters()
+        self._free_background()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2488,7 +2492,9 @@ cdef class Coffe:
             1,
         )
         self._parameters.integration_1d_prec = float(value)
-        self._free_except_parameters()
+        self._free_background()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2525,7 +2531,9 @@ cdef class Coffe:
         _check_parameter('background_sampling', value, int, 0, self._max_size)
 
         self._parameters.background_bins = value
-        self._free_except_parameters()
+        self._free_background()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2616,7 +2624,8 @@ cdef class Coffe:
     @has_d1.setter
     def has_d1(self, value : bool):
         self._parameters.correlation_contrib.d1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2630,7 +2639,8 @@ cdef class Coffe:
     @has_d2.setter
     def has_d2(self, value : bool):
         self._parameters.correlation_contrib.d2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2645,7 +2655,8 @@ cdef class Coffe:
     @has_g1.setter
     def has_g1(self, value : bool):
         self._parameters.correlation_contrib.g1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2660,7 +2671,8 @@ cdef class Coffe:
     @has_g2.setter
     def has_g2(self, value : bool):
         self._parameters.correlation_contrib.g2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2675,7 +2687,8 @@ cdef class Coffe:
     @has_g3.setter
     def has_g3(self, value : bool):
         self._parameters.correlation_contrib.g3 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2690,7 +2703,8 @@ cdef class Coffe:
     @has_g4.setter
     def has_g4(self, value : bool):
         self._parameters.correlation_contrib.g4 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2705,7 +2719,8 @@ cdef class Coffe:
     @has_g5.setter
     def has_g5(self, value : bool):
         self._parameters.correlation_contrib.g5 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     def reset_contributions(self):
@@ -2994,7 +3009,8 @@ cdef class Coffe:
             x_norm, y_norm, size, self._parameters.interp_method
         )
 
-        self._power_spectrum_flag = 1
+        # marks it as set by the user
+        self._power_spectrum_flag = 2
 
         free(x)
         free(y)
@@ -3552,6 +3568,9 @@ cdef class Coffe:
         )
 
     def _power_spectrum_init(self):
+        # the spectrum set by the user is an input, which cannot be recomputed
+        if self._power_spectrum_flag == 2:
+            return
         ccoffe.parse_external_power_spectrum(&self._parameters)
         self._power_spectrum_flag = 1
 
-- 
2.43.0


From da637d071a62561df265a5f192e9adf5da0d8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 13/53] fix: whether integrals need the divergent one is
 decided when they are computed

---
 python/coffe/coffe.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index eb99fdd..26d6402 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1109,8 +1109,6 @@ cdef class Coffe:
                 "'has_d1', 'has_d2', 'has_g1', 'has_g2', 'has_g3', "
                 "'has_g4', 'has_g5'"
             )
-        if any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5]):
-            self._parameters.divergent = 1
 
 
     def _balance_content(self):
@@ -3575,6 +3573,10 @@ cdef class Coffe:
         self._power_spectrum_flag = 1
 
     def _integrals_init(self):
+        # the setters of these contributions free the integrals
+        self._parameters.divergent = int(any(
+            [self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5]
+        ))
         ccoffe.coffe_integrals_init(
             &self._parameters,
             &self._background,
-- 
2.43.0


From 7ade601b41da92470148000067b3af66a1ded4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 14/53] fix: flat-sky terms of the correlation function and
 averaged multipoles are not dropped

---
 python/coffe/coffe.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 26d6402..8c25856 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3226,6 +3226,9 @@ cdef class Coffe:
         cdef ccoffe.gsl_error_handler_t *default_handler = \
             ccoffe.gsl_set_error_handler_off()
 
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.CORRFUNC
+
         result = ccoffe.coffe_integrate(
             &self._parameters,
             &self._background,
@@ -3248,6 +3251,8 @@ cdef class Coffe:
             ccoffe.DOUBLE_INTEGRATED, ccoffe.CORRFUNC
         )
 
+        self._parameters.output_type = temp
+
         ccoffe.gsl_set_error_handler(default_handler)
 
         return result
@@ -3393,8 +3398,11 @@ cdef class Coffe:
         if not self._integral.size or recompute:
             self._integrals_init()
 
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.AVERAGE_MULTIPOLES
         if not self._average_multipoles.size or recompute:
             self._average_multipoles_init()
+        self._parameters.output_type = temp
 
         return np.array([
             AverageMultipoles(
@@ -3436,8 +3444,11 @@ cdef class Coffe:
         if not self._integral.size or recompute:
             self._integrals_init()
 
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.CORRFUNC
         if not self._corrfunc.size or recompute:
             self._corrfunc_init()
+        self._parameters.output_type = temp
 
         return np.array([
             Corrfunc(
-- 
2.43.0


From c77970d9fb034336fb060a6231601bdef395f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 15/53] fix: divergent terms can be computed at every redshift
 of the background

---
 src/integrals.c | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/src/integrals.c b/src/integrals.c
index 27a0859..1f2a2ca 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -853,29 +853,10 @@ int coffe_integrals_init(
                 sizeof(double) * (nbins + 1) * (nbins + 1)
             );
 
-            double chi_min = 0.;
-            double chi_max = 0.;
-            if (
-                par->output_type == CORRFUNC ||
-                par->output_type == MULTIPOLES
-            ){
-                /* dimensionless */
-                double *temp = (double *)coffe_malloc(sizeof(double) * par->z_mean_len);
-                for (size_t i = 0; i < par->z_mean_len; ++i)
-                    temp[i] = par->z_mean[i] + par->deltaz[i];
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(temp, par->z_mean_len)
-                );
-                free(temp);
-            }
-            else if (par->output_type == AVERAGE_MULTIPOLES){
-                /* dimensionless */
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(par->zmax, par->zmax_len)
-                );
-            }
+            /* the points can be at any redshift the background covers */
+            const double chi_min = 0.;
+            const double chi_max =
+                bg->comoving_distance.spline->y[bg->comoving_distance.spline->size - 1];
             double *chi_array = (double *)coffe_malloc(
                 sizeof(double) * (nbins + 1)
             );
-- 
2.43.0


From d7add9787a4eb28c127ce990294ce93cbe2bccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 16/53] fix: z_min and z_max of different lengths are refused

---
 python/coffe/coffe.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 8c25856..4a95d60 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1087,6 +1087,9 @@ cdef class Coffe:
                 f'At least one of the following parameters is empty: l ({self.l}), sep ({self.sep}), z_min ({self.z_min}), z_max ({self.z_max})'
             )
 
+        if len(self.z_min) != len(self.z_max):
+            raise ValueError('Mismatching lengths for `z_min` and `z_max`')
+
 
     def _check_contributions(self):
         if not any(
-- 
2.43.0


From 53cdfe5683a9759ea5b008e81b1a35d23aab0069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 17/53] fix: points behind the observer or beyond the
 background are refused

---
 python/coffe/coffe.pyx | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 4a95d60..d21ad04 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1091,6 +1091,23 @@ cdef class Coffe:
             raise ValueError('Mismatching lengths for `z_min` and `z_max`')
 
 
+    def _check_geometry(self, z, r, mu):
+        """
+        Checks that both points are between the observer and the largest redshift.
+        """
+        if not self._background.flag:
+            self._background_init()
+
+        chi = ccoffe.coffe_interp_spline(&self._background.comoving_distance, z)
+        chi_max = get_spline_max(&self._background.z_as_chi)
+
+        if not (chi - r * abs(mu) / 2 > 0 and chi + r * abs(mu) / 2 <= chi_max):
+            raise ValueError(
+                f'The points separated by r = {r} at redshift z = {z} are not '
+                'between the observer and the largest redshift'
+            )
+
+
     def _check_contributions(self):
         if not any(
             [
@@ -3225,6 +3242,7 @@ cdef class Coffe:
         _check_parameter('z', z, (int, float), 0, 15)
         _check_parameter('r', r, (int, float), 0, 1500)
         _check_parameter('mu', mu, (int, float), -1, 1)
+        self._check_geometry(z, r, mu)
 
         cdef ccoffe.gsl_error_handler_t *default_handler = \
             ccoffe.gsl_set_error_handler_off()
@@ -3301,6 +3319,7 @@ cdef class Coffe:
         _check_parameter('z', z, (int, float), 0, 15)
         _check_parameter('r', r, (int, float), 0, 1500)
         _check_parameter('l', l, (int,), 0, 10)
+        self._check_geometry(z, r, 1)
 
         cdef ccoffe.gsl_error_handler_t *default_handler = \
             ccoffe.gsl_set_error_handler_off()
@@ -3354,6 +3373,9 @@ cdef class Coffe:
         if not self._background.flag or recompute:
             self._background_init()
 
+        for z in self.z_mean:
+            self._check_geometry(z, max(self.sep), 1)
+
         if not self._power_spectrum_flag or recompute:
             self._power_spectrum_init()
 
@@ -3441,6 +3463,9 @@ cdef class Coffe:
         if not self._background.flag or recompute:
             self._background_init()
 
+        for z in self.z_mean:
+            self._check_geometry(z, max(self.sep), max(abs(self.mu)))
+
         if not self._power_spectrum_flag or recompute:
             self._power_spectrum_init()
 
-- 
2.43.0


From 6cc3ce1dcf1a628029c0d09545d06da4b8956eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 18/53] fix: flat-sky multipoles which have no integrals are
 refused

---
 python/coffe/coffe.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index d21ad04..9b12ccd 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3319,6 +3319,10 @@ cdef class Coffe:
         _check_parameter('z', z, (int, float), 0, 15)
         _check_parameter('r', r, (int, float), 0, 1500)
         _check_parameter('l', l, (int,), 0, 10)
+        if (self.has_flatsky_local_nonlocal or self.has_flatsky_nonlocal) and l not in self.l:
+            raise ValueError(
+                f'Flat-sky multipoles can only be computed for the values in `l` ({self.l}), not {l}'
+            )
         self._check_geometry(z, r, 1)
 
         cdef ccoffe.gsl_error_handler_t *default_handler = \
-- 
2.43.0


From d70ae0bf1178fdda882a62ab4ad032af0df6a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 19/53] fix: the largest redshift itself is refused, and the
 larger renormalization table uses its symmetry

---
 python/coffe/coffe.pyx | 2 +-
 src/integrals.c        | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 9b12ccd..8dba5d9 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1101,7 +1101,7 @@ cdef class Coffe:
         chi = ccoffe.coffe_interp_spline(&self._background.comoving_distance, z)
         chi_max = get_spline_max(&self._background.z_as_chi)
 
-        if not (chi - r * abs(mu) / 2 > 0 and chi + r * abs(mu) / 2 <= chi_max):
+        if not (chi - r * abs(mu) / 2 > 0 and chi + r * abs(mu) / 2 < chi_max):
             raise ValueError(
                 f'The points separated by r = {r} at redshift z = {z} are not '
                 'between the observer and the largest redshift'
diff --git a/src/integrals.c b/src/integrals.c
index 1f2a2ca..c0fb036 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -864,9 +864,10 @@ int coffe_integrals_init(
                 chi_array[j] = chi_min + (double)j / nbins * (chi_max - chi_min);
             }
 
-            #pragma omp parallel for num_threads(par->nthreads) collapse(2)
+            /* the renormalization is symmetric */
+            #pragma omp parallel for num_threads(par->nthreads) schedule(dynamic)
             for (size_t j = 0; j <= nbins; ++j){
-                for (size_t k = 0; k <= nbins; ++k){
+                for (size_t k = 0; k <= j; ++k){
                     result2d[k * (nbins + 1) + j] = integrals_renormalization(
                         &par->power_spectrum_norm,
                         chi_array[j],
@@ -874,6 +875,7 @@ int coffe_integrals_init(
                         par->k_min_norm,
                         par->k_max_norm
                     );
+                    result2d[j * (nbins + 1) + k] = result2d[k * (nbins + 1) + j];
                 }
             }
 
-- 
2.43.0


From c32a0fa2cd7e7b77bf859432a588252007d8fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:19 +0000
Subject: [PATCH 20/53] fix: points at which a used bias is not known are
 refused

---
 python/coffe/coffe.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 8dba5d9..a4d6907 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1107,6 +1107,24 @@ cdef class Coffe:
                 'between the observer and the largest redshift'
             )
 
+        # the biases which are used must be known at both points
+        cdef double z_near = ccoffe.coffe_interp_spline(
+            &self._background.z_as_chi, chi - r * abs(mu) / 2
+        )
+        cdef double z_far = ccoffe.coffe_interp_spline(
+            &self._background.z_as_chi, chi + r * abs(mu) / 2
+        )
+        biases = []
+        if self.has_density:
+            biases += [self.galaxy_bias1, self.galaxy_bias2]
+        if any([self.has_lensing, self.has_d1, self.has_g1, self.has_g2, self.has_g4, self.has_g5]):
+            biases += [self.magnification_bias1, self.magnification_bias2]
+        if any([self.has_d1, self.has_d2, self.has_g1, self.has_g5]):
+            biases += [self.evolution_bias1, self.evolution_bias2]
+        for bias in biases:
+            bias(z_near)
+            bias(z_far)
+
 
     def _check_contributions(self):
         if not any(
-- 
2.43.0


From 4c828920df1d26cc49a15e72ac2e081c1a7fe3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 21/53] fix: reading a settings file restores every setting
 that is written, in a fixed order

---
 python/coffe/coffe.pyx | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index a4d6907..a52fd19 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -640,7 +640,7 @@ cdef class Coffe:
                 if key in contributions:
                     setattr(cosmo, value, True)
 
-        options_float_array = {
+        options_float_array = [
             "sep",
             "z_mean",
             "deltaz",
@@ -651,20 +651,21 @@ cdef class Coffe:
             "number_density2",
             "pixelsize",
             "fsky",
-        }
+        ]
         for option in options_float_array:
             if option in config:
                 setattr(cosmo, option, config.getfloat_array(option))
 
-        options_int_array = ["l"]
+        options_int_array = ["l", "covariance_populations"]
         for option in options_int_array:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
 
-        options_float = {
-            "omega_m",
+        options_float = [
+            # in this order none of them is refused because of the default of another
             "omega_baryon",
             "omega_gamma",
+            "omega_m",
             "w0",
             "wa",
             "h",
@@ -674,7 +675,7 @@ cdef class Coffe:
             "A_s",
             "k_per_decade_for_bao",
             "k_per_decade_for_pk",
-            "start_large_k_at_tau_c_over_tau_h",
+            "start_large_k_at_tau_h_over_tau_k",
             "l_max_g",
             "l_max_ur",
             "tol_perturb_integration",
@@ -685,24 +686,28 @@ cdef class Coffe:
             "k_min",
             "k_max",
             "YHe",
-        }
+            "integration_1d_prec",
+        ]
         for option in options_float:
             if option in config:
                 setattr(cosmo, option, config.getfloat(option))
 
-        options_int = {
+        options_int = [
             "has_density",
             "has_lensing",
             "has_rsd",
             "has_d1",
             "has_d2",
             "has_g1",
+            "has_g2",
             "has_g3",
             "has_g4",
             "has_g5",
             "integration_sampling",
             "background_sampling",
             "has_binned_covariance",
+            "has_only_cross_correlations",
+            "verbose",
             "has_flatsky_local",
             "has_flatsky_nonlocal",
             "has_flatsky_local_nonlocal",
@@ -712,17 +717,17 @@ cdef class Coffe:
             "covariance_integration_sampling",
             "integrals_fftlog_sampling",
             "N_ncdm",
-        }
+        ]
         for option in options_int:
             if option in config:
                 setattr(cosmo, option, config.getint(option))
 
-        options_int_or_string = {
+        options_int_or_string = [
             "covariance_integration_method",
             "pk_type",
             "covariance_interpolation_method",
             "integration_1d_type",
-        }
+        ]
         for option in options_int_or_string:
             if option in config:
                 try:
-- 
2.43.0


From 3fae14d096d4d300bb283d1e40102e0d38c451a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 22/53] fix: the redshifts of a bias are the ones it was set at

---
 python/coffe/coffe.pyx | 60 ++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index a52fd19..ddbd4cc 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -139,6 +139,18 @@ cdef double get_spline_max(
 
 
 
+cdef get_spline_x(
+    ccoffe.coffe_interpolation *interp,
+):
+    """
+    Returns the nodes of the spline
+    """
+    return np.array(
+        [dereference(interp.spline).x[i] for i in range(get_spline_size(interp))]
+    )
+
+
+
 cdef double evaluate_spline(
     ccoffe.coffe_interpolation *interp,
     const double x,
@@ -850,11 +862,7 @@ cdef class Coffe:
 
     def galaxy_bias1_redshifts(self):
         """Return the redshifts of the galaxy bias 1 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias1)
-        xmin = get_spline_min(&self._parameters.galaxy_bias1)
-        xmax = get_spline_max(&self._parameters.galaxy_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_x(&self._parameters.galaxy_bias1)
 
     def galaxy_bias1_values(self):
         """Return the values of the galaxy bias 1 spline."""
@@ -863,11 +871,7 @@ cdef class Coffe:
 
     def galaxy_bias2_redshifts(self):
         """Return the redshifts of the galaxy bias 2 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias2)
-        xmin = get_spline_min(&self._parameters.galaxy_bias2)
-        xmax = get_spline_max(&self._parameters.galaxy_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_x(&self._parameters.galaxy_bias2)
 
     def galaxy_bias2_values(self):
         """Return the values of the galaxy bias 2 spline."""
@@ -875,11 +879,7 @@ cdef class Coffe:
 
     def galaxy_bias3_redshifts(self):
         """Return the redshifts of the galaxy bias 3 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias3)
-        xmin = get_spline_min(&self._parameters.galaxy_bias3)
-        xmax = get_spline_max(&self._parameters.galaxy_bias3)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_x(&self._parameters.galaxy_bias3)
 
     def galaxy_bias3_values(self):
         """Return the values of the galaxy bias 3 spline."""
@@ -887,11 +887,7 @@ cdef class Coffe:
 
     def galaxy_bias4_redshifts(self):
         """Return the redshifts of the galaxy bias 4 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias4)
-        xmin = get_spline_min(&self._parameters.galaxy_bias4)
-        xmax = get_spline_max(&self._parameters.galaxy_bias4)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_x(&self._parameters.galaxy_bias4)
 
     def galaxy_bias4_values(self):
         """Return the values of the galaxy bias 4 spline."""
@@ -900,11 +896,7 @@ cdef class Coffe:
 
     def magnification_bias1_redshifts(self):
         """Return the redshifts of the magnification bias 1 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias1)
-        xmin = get_spline_min(&self._parameters.magnification_bias1)
-        xmax = get_spline_max(&self._parameters.magnification_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_x(&self._parameters.magnification_bias1)
 
     def magnification_bias1_values(self):
         """Return the values of the magnification bias 1 spline."""
@@ -913,11 +905,7 @@ cdef class Coffe:
 
     def magnification_bias2_redshifts(self):
         """Return the redshifts of the magnification bias 2 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias2)
-        xmin = get_spline_min(&self._parameters.magnification_bias2)
-        xmax = get_spline_max(&self._parameters.magnification_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_x(&self._parameters.magnification_bias2)
 
     def magnification_bias2_values(self):
         """Return the values of the magnification bias 2 spline."""
@@ -926,11 +914,7 @@ cdef class Coffe:
 
     def evolution_bias1_redshifts(self):
         """Return the redshifts of the evolution bias 1 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias1)
-        xmin = get_spline_min(&self._parameters.evolution_bias1)
-        xmax = get_spline_max(&self._parameters.evolution_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_x(&self._parameters.evolution_bias1)
 
     def evolution_bias1_values(self):
         """Return the values of the evolution bias 1 spline."""
@@ -939,11 +923,7 @@ cdef class Coffe:
 
     def evolution_bias2_redshifts(self):
         """Return the redshifts of the evolution bias 2 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias2)
-        xmin = get_spline_min(&self._parameters.evolution_bias2)
-        xmax = get_spline_max(&self._parameters.evolution_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_x(&self._parameters.evolution_bias2)
 
     def evolution_bias2_values(self):
         """Return the values of the evolution bias 2 spline."""
-- 
2.43.0


From 33f6b4a1ec9aac5f57d6f94548c7a77d0d6db84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 23/53] fix: tables which cannot be interpolated are refused

---
 python/coffe/coffe.pyx | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index ddbd4cc..6e12495 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -167,6 +167,27 @@ cdef double evaluate_spline(
 
 
 
+def _check_table(x_sampling, y_sampling):
+    """
+    Checks that the table can be interpolated
+    """
+    if len(x_sampling) != len(y_sampling):
+        raise ValueError(
+            f'Mismatching lengths for x ({len(x_sampling)}) and y ({len(y_sampling)})'
+        )
+
+    # the minimum for Akima interpolation
+    if len(x_sampling) < 5:
+        raise ValueError('The input arrays must have at least 5 elements')
+
+    if not (np.all(np.isfinite(x_sampling)) and np.all(np.isfinite(y_sampling))):
+        raise ValueError('The values of the input arrays must be finite')
+
+    if not np.all(np.diff(x_sampling) > 0):
+        raise ValueError('The input array must be strictly increasing')
+
+
+
 cdef int set_spline(
     ccoffe.coffe_interpolation *interp,
     x_sampling : List[float],
@@ -178,12 +199,7 @@ cdef int set_spline(
     """
     Sets the value of the spline according to some x_sampling and y_sampling
     """
-    if not np.allclose(x_sampling, np.sort(x_sampling)):
-        raise ValueError('The input array must be sorted')
-    if len(x_sampling) != len(y_sampling):
-        raise ValueError(
-            f'Mismatching lengths for x ({len(x_sampling)}) and y ({len(y_sampling)})'
-        )
+    _check_table(x_sampling, y_sampling)
 
     _check_parameter('xmin', x_sampling[0], (int, float), xmin=xmin)
     _check_parameter('xmax', x_sampling[-1], (int, float), xmax=xmax)
@@ -2994,11 +3010,7 @@ cdef class Coffe:
         None
         """
         # value checking
-        if not np.allclose(k, np.sort(k)):
-            raise ValueError('The input k array must be sorted')
-
-        if len(k) != len(pk):
-            raise ValueError('The input arrays have mismatching lengths')
+        _check_table(k, pk)
 
         # TODO error checking for z and rescaling if z > 0
 
-- 
2.43.0


From b97ed977ccf67add03ab8c369e00be2624f8c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 24/53] fix: an input power spectrum at z > 0 is rescaled to z
 = 0

---
 python/coffe/coffe.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 6e12495..ca5d202 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3012,7 +3012,10 @@ cdef class Coffe:
         # value checking
         _check_table(k, pk)
 
-        # TODO error checking for z and rescaling if z > 0
+        _check_parameter('z', z, (int, float), 0, 15)
+
+        # the spectrum which is kept is the one at z = 0
+        growth_factor = self.growth_factor(z) if z > 0 else 1
 
         self._free_power_spectrum()
         self._parameters.k_min = k[0]
@@ -3028,9 +3031,9 @@ cdef class Coffe:
 
         for (i, ki), pki in zip(enumerate(k), pk):
             x[i] = ki
-            y[i] = pki
+            y[i] = pki / growth_factor**2
             x_norm[i] = ki
-            y_norm[i] = pki
+            y_norm[i] = y[i]
 
         ccoffe.coffe_init_spline(
             &self._parameters.power_spectrum,
-- 
2.43.0


From 47355fb92e984d94cd3e5052eb8e98ca99865806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:30 +0000
Subject: [PATCH 25/53] fix: mirrored pairs enter the covariance of odd
 multipoles with their sign

---
 src/covariance.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 467f176..e2de728 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -881,7 +881,8 @@ int coffe_covariance_init(
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l2)
                             +
-                            coffe_sign(cnt_l2)
+                            /* the pair (x2, x1) is the mirror image of (x1, x2) */
+                            coffe_sign(l2)
                            *covariance_coefficient_pair(par->covariance_pop1,
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l1)
@@ -915,7 +916,9 @@ int coffe_covariance_init(
                             )
                            /par->density1[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop1,
+                            /* same as above */
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop1,
                                 par->covariance_pop4, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
@@ -924,7 +927,8 @@ int coffe_covariance_init(
                             )
                            /par->density2[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop2,
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop2,
                                 par->covariance_pop3, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
-- 
2.43.0


From 7bd5b0f9255272984e45d02bbbe28e94a61418ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:30 +0000
Subject: [PATCH 26/53] fix: the binned covariance uses the pixel size of each
 redshift

---
 src/covariance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index e2de728..09f1748 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -524,7 +524,9 @@ int coffe_covariance_init(
             separations[i] = par->sep[i];
         const size_t redshifts_to_allocate =
             /* trigraph */
-            par->pk_type ? par->z_mean_len : 1;
+            par->pk_type ? par->z_mean_len :
+            /* the pixelsize is specific to each redshift */
+            (par->covariance_window ? par->density1_len : 1);
         /* allocating memory for the integrals of P(k) and P^2(k) (D_l1l2 and G_l1l2) */
         /* why triple pointers, you ask? First index is redshift, second is multipole, third are separations */
         double ***integral_pk =
@@ -1000,7 +1002,7 @@ int coffe_covariance_init(
                        *(par->pk_type ? 1 : D1z * D1z)
                         /* trigraph */
                        *(
-                            par->pk_type
+                            redshifts_to_allocate > 1
                             ?
                             integral_pk[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
@@ -1017,7 +1019,7 @@ int coffe_covariance_init(
                         /* TODO fix this abomination */
                         /* trigraph */
                        *(
-                            par->pk_type
+                            redshifts_to_allocate > 1
                             ?
                             integral_pk2[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
-- 
2.43.0


From 2b3a613b3a50c9744c285d794c734a286bba5c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 27/53] fix: coffe-cli overwrites the result of a previous run
 and stops if it cannot write

---
 src/output.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/output.c b/src/output.c
index 6623d99..43b66d6 100644
--- a/src/output.c
+++ b/src/output.c
@@ -79,6 +79,21 @@ static int output_make_path(char *path)
     return EXIT_SUCCESS;
 }
 
+/**
+    opens a file for writing (any previous contents are discarded)
+**/
+
+static FILE *output_open(const char *filepath)
+{
+    FILE *file = fopen(filepath, "w");
+    if (file == NULL){
+        print_error_verbose(PROG_OPEN_ERROR, filepath);
+        exit(EXIT_FAILURE);
+    }
+    return file;
+}
+
+
 static int output_correlation_contributions_header(
     const struct coffe_correlation_contributions cc,
     char *header
@@ -116,7 +131,7 @@ static int output_corrfunc(
     strncat(header, "\n", COFFE_MAX_STRLEN);
     strncat(header, "# z_mean, sep, mu, value\n", COFFE_MAX_STRLEN);
 
-    FILE *data = fopen(filepath, "a");
+    FILE *data = output_open(filepath);
     fprintf(data, header);
 
     for (size_t i = 0; i < cf->size; ++i){
@@ -149,7 +164,7 @@ static int output_multipoles(
     strncat(header, "\n", COFFE_MAX_STRLEN);
     strncat(header, "# z_mean, l, sep, value\n", COFFE_MAX_STRLEN);
 
-    FILE *data = fopen(filepath, "a");
+    FILE *data = output_open(filepath);
     fprintf(data, header);
 
     for (size_t i = 0; i < mp->size; ++i){
@@ -175,7 +190,7 @@ static int output_covariance(
 )
 {
     char header[COFFE_MAX_STRLEN];
-    FILE *output = fopen(filepath, "a");
+    FILE *output = output_open(filepath);
     snprintf(
         header, COFFE_MAX_STRLEN,
         "# correlation contributions: "
@@ -339,7 +354,8 @@ int coffe_output_init(
     char filepath[COFFE_MAX_STRLEN];
     char prefix[COFFE_MAX_STRLEN];
     char header[COFFE_MAX_STRLEN];
-    output_make_path(par->output_path);
+    if (output_make_path(par->output_path) != EXIT_SUCCESS)
+        exit(EXIT_FAILURE);
 
     if (strcmp(par->output_prefix, "$TIME") == 0){
         snprintf(prefix, COFFE_MAX_STRLEN, "%s%s_", par->output_path, par->timestamp);
@@ -384,8 +400,8 @@ int coffe_output_init(
             "%scovariance_average_multipoles.dat", prefix
         );
 
-        FILE *output = fopen(filepath, "w");
-        fprintf(output, "# sep[Mpc/h]\tsep[Mpc/h]\tresult\n");
+        FILE *output = output_open(filepath);
+        fprintf(output, "# sep1, sep2, l1, l2, z_min, z_max, value\n");
 
         for (size_t i = 0; i < cov_ramp->size; ++i){
             fprintf(
-- 
2.43.0


From a5f5d84ca5e68e387e56b6f3a33bfc1d72996f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 28/53] fix: coffe-cli writes the redshift averaged multipoles

---
 src/output.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/output.c b/src/output.c
index 43b66d6..7abed9f 100644
--- a/src/output.c
+++ b/src/output.c
@@ -183,6 +183,41 @@ static int output_multipoles(
 }
 
 
+static int output_average_multipoles(
+    const char *filepath,
+    const struct coffe_correlation_contributions cc,
+    const coffe_average_multipoles_array_t *ramp
+)
+{
+    char header[COFFE_MAX_STRLEN];
+    snprintf(
+        header, COFFE_MAX_STRLEN,
+        "# correlation contributions: "
+    );
+    output_correlation_contributions_header(cc, header);
+    strncat(header, "\n", COFFE_MAX_STRLEN);
+    strncat(header, "# z_min, z_max, l, sep, value\n", COFFE_MAX_STRLEN);
+
+    FILE *data = output_open(filepath);
+    fprintf(data, header);
+
+    for (size_t i = 0; i < ramp->size; ++i){
+        fprintf(
+            data,
+            "%.10e %.10e %d %.10e %.10e\n",
+            ramp->array[i].coords.z_min,
+            ramp->array[i].coords.z_max,
+            ramp->array[i].coords.l,
+            ramp->array[i].coords.separation,
+            ramp->array[i].value
+        );
+    }
+    fclose(data);
+
+    return EXIT_SUCCESS;
+}
+
+
 static int output_covariance(
     const char *filepath,
     const struct coffe_correlation_contributions cc,
@@ -388,6 +423,12 @@ int coffe_output_init(
         output_multipoles(filepath, par->correlation_contrib, mp);
     }
 
+    /* redshift averaged multipoles */
+    else if (par->output_type == AVERAGE_MULTIPOLES){
+        snprintf(filepath, COFFE_MAX_STRLEN, "%saverage_multipoles.dat", prefix);
+        output_average_multipoles(filepath, par->correlation_contrib, ramp);
+    }
+
     /* covariance of multipoles */
     else if (par->output_type == COVARIANCE_MULTIPOLES){
         snprintf(filepath, COFFE_MAX_STRLEN, "%scovariance_multipoles.dat", prefix);
-- 
2.43.0


From f900cd413363f9392ff021b51bb4b2fe3e8be158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 29/53] fix: coffe-cli stops at settings which are missing or
 cannot be read

---
 src/parser.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2e7f8f5..05155e1 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -115,7 +115,8 @@ static int parse_string(
 {
     const char *temp_value;
     int error = config_lookup_string(conf, setting, &temp_value);
-    strcpy(value, (char *)temp_value);
+    if (error == CONFIG_TRUE)
+        snprintf(value, COFFE_MAX_STRLEN, "%s", temp_value);
     if (safe == COFFE_TRUE){
         if (error != 1){
             fprintf(stderr,
@@ -148,8 +149,8 @@ static int parse_string_array(
 {
     config_setting_t *type = config_lookup(conf, setting);
     if (type == NULL){
-        print_error(PROG_NULL_PARAM);
-        return EXIT_FAILURE;
+        fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
+        exit(EXIT_FAILURE);
     }
     *values_len = (size_t)config_setting_length(type);
 
@@ -163,6 +164,10 @@ static int parse_string_array(
 
     for (size_t i = 0; i < *values_len; ++i){
         temp_setting = config_setting_get_string_elem(type, i);
+        if (temp_setting == NULL){
+            fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
+            exit(EXIT_FAILURE);
+        }
         (*values)[i] =
             (char *)coffe_malloc(sizeof(char)*(strlen(temp_setting) + 1));
         strcpy((char *)(*values)[i], temp_setting);
@@ -185,8 +190,8 @@ static int parse_int_array(
 {
     config_setting_t *type = config_lookup(conf, setting);
     if (type == NULL){
-        print_error(PROG_NULL_PARAM);
-        return EXIT_FAILURE;
+        fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
+        exit(EXIT_FAILURE);
     }
     *values_len = (size_t)config_setting_length(type);
 
@@ -216,8 +221,8 @@ static int parse_double_array(
 {
     config_setting_t *type = config_lookup(conf, setting);
     if (type == NULL){
-        print_error(PROG_NULL_PARAM);
-        return EXIT_FAILURE;
+        fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
+        exit(EXIT_FAILURE);
     }
     *values_len = (size_t)config_setting_length(type);
 
@@ -252,12 +257,13 @@ static int parse_bias(
         double *redshifts, *values;
         size_t len;
         parse_string(conf, setting, filename, COFFE_TRUE);
-        read_2col(
+        if (read_2col(
             filename,
             &redshifts,
             &values,
             &len
-        );
+        ) != EXIT_SUCCESS)
+            exit(EXIT_FAILURE);
         coffe_init_spline(spline, redshifts, values, len, method);
         free(redshifts);
         free(values);
@@ -1068,7 +1074,8 @@ int coffe_parser_init(
     }
 
     parse_int(conf, "output_type", &par->output_type, COFFE_TRUE);
-    parse_string_array(conf, "output_background", &par->type_bg, &par->type_bg_len);
+    if (config_lookup(conf, "output_background") != NULL)
+        parse_string_array(conf, "output_background", &par->type_bg, &par->type_bg_len);
     parse_int(conf, "background_sampling", &par->background_bins, COFFE_TRUE);
 
     /* cosmological parameters */
@@ -1100,11 +1107,15 @@ int coffe_parser_init(
     if (par->output_type == AVERAGE_MULTIPOLES){
         parse_double_array(conf, "z_min", &par->zmin, &par->zmin_len);
         parse_double_array(conf, "z_max", &par->zmax, &par->zmax_len);
+        if (par->zmin_len != par->zmax_len){
+            print_error_verbose(PROG_VALUE_ERROR, "z_min, z_max");
+            exit(EXIT_FAILURE);
+        }
     }
 
     /* the interpolation method for GSL */
     {
-    int temp;
+    int temp = (int)par->interp_method;
     parse_int(conf, "interpolation", &temp, COFFE_FALSE);
     par->interp_method = (enum coffe_interp1d_type)temp;
     }
-- 
2.43.0


From 824c0e031494f274b38c9d5fb86da7107340d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 30/53] fix: coffe-cli uses separations_step, and the
 separations for averaged covariances

---
 src/parser.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 05155e1..b644f0d 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1143,7 +1143,8 @@ int coffe_parser_init(
         par->output_type == CORRFUNC ||
         par->output_type == MULTIPOLES ||
         par->output_type == AVERAGE_MULTIPOLES ||
-        par->output_type == COVARIANCE_MULTIPOLES
+        par->output_type == COVARIANCE_MULTIPOLES ||
+        par->output_type == COVARIANCE_AVERAGE_MULTIPOLES
     ){
         double xmin, xmax;
         parse_double(conf, "separations_min", &xmin, COFFE_TRUE);
@@ -1164,6 +1165,15 @@ int coffe_parser_init(
             fprintf(stderr, "You need to specify one of `separations_sampling` and `separations_step`");
             exit(EXIT_FAILURE);
         }
+        if (error2 == EXIT_SUCCESS){
+            if (step > 0)
+                sampling = (int)ceil((xmax - xmin) / step - 1e-10);
+            xmax = xmin + sampling * step;
+        }
+        if (sampling <= 0){
+            print_error_verbose(PROG_VALUE_ERROR, "separations");
+            exit(EXIT_FAILURE);
+        }
         if (par->sep_len)
             free(par->sep);
         par->sep = coffe_generate_range(xmin, xmax, sampling);
-- 
2.43.0


From a6f08f3ececcc69717db60e40a44dbd7aedb1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:53 +0000
Subject: [PATCH 31/53] fix: sampling and precision settings with which nothing
 can be computed are refused

---
 python/coffe/coffe.pyx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index ca5d202..67a889f 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1320,6 +1320,8 @@ cdef class Coffe:
     @h.setter
     def h(self, value):
         _check_parameter('h', value, (int, float), 0, 100)
+        if value == 0:
+            raise ValueError('The value of `h` must be positive')
         if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
@@ -1693,7 +1695,7 @@ cdef class Coffe:
             "integrals_fftlog_sampling",
             value,
             int,
-            0,
+            2,
             1000000,
         )
 
@@ -2334,9 +2336,11 @@ cdef class Coffe:
             "covariance_integration_sampling",
             value,
             int,
-            0,
+            8,
             1000000,
         )
+        if value % 2:
+            raise ValueError('The value of `covariance_integration_sampling` must be even')
 
         self._parameters.covariance_integration_bins = int(value)
         self._free_covariance_multipoles()
@@ -2528,6 +2532,8 @@ cdef class Coffe:
             0,
             1,
         )
+        if value == 0:
+            raise ValueError('The value of `integration_1d_prec` must be positive')
         self._parameters.integration_1d_prec = float(value)
         self._free_background()
         self._free_integrals()
@@ -2546,7 +2552,7 @@ cdef class Coffe:
     @integration_sampling.setter
     def integration_sampling(self, value):
         # the latter is at least the size of a long
-        _check_parameter('integration_sampling', value, int, 0, self._max_size)
+        _check_parameter('integration_sampling', value, int, 2, self._max_size)
 
         self._parameters.integration_bins = value
         self._free_corrfunc()
@@ -2565,7 +2571,8 @@ cdef class Coffe:
 
     @background_sampling.setter
     def background_sampling(self, value):
-        _check_parameter('background_sampling', value, int, 0, self._max_size)
+        # the minimum for Akima interpolation
+        _check_parameter('background_sampling', value, int, 5, self._max_size)
 
         self._parameters.background_bins = value
         self._free_background()
@@ -2965,6 +2972,8 @@ cdef class Coffe:
     @k_min.setter
     def k_min(self, value):
         _check_parameter('k_min', value, (int, float), 0, 1e-3)
+        if value == 0:
+            raise ValueError('The value of `k_min` must be positive')
         self._parameters.k_min = value
         self._parameters.k_min_norm = value
         self._free_except_parameters()
-- 
2.43.0


From 06d955775b3bf7f501791571aad802a4ca50de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 32/53] fix: contributions with inverse powers of the
 separation are refused at zero separation

---
 python/coffe/coffe.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 67a889f..aef18a9 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1108,6 +1108,12 @@ cdef class Coffe:
                 'between the observer and the largest redshift'
             )
 
+        # their terms contain inverse powers of the separation
+        if r == 0 and any([self.has_rsd, self.has_d2, self.has_g1, self.has_g2, self.has_g3]):
+            raise ValueError(
+                'The current contributions cannot be computed at zero separation'
+            )
+
         # the biases which are used must be known at both points
         cdef double z_near = ccoffe.coffe_interp_spline(
             &self._background.z_as_chi, chi - r * abs(mu) / 2
-- 
2.43.0


From 8bb28127d42693f8f2d9d441faac4af64d870837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 33/53] fix: redshift bins beyond the background are refused

---
 python/coffe/coffe.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index aef18a9..7efdb1a 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2855,6 +2855,7 @@ cdef class Coffe:
         """
         _check_parameter('z_mean', z_mean, (int, float), 0, 15)
         _check_parameter('deltaz', deltaz, (int, float), 0, z_mean)
+        _check_parameter('z_mean + deltaz', z_mean + deltaz, (int, float), 0, 15)
 
         if not self._background.flag:
             self._background_init()
-- 
2.43.0


From 31049c50daeaec64b8fa221a298271a8db4f61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:43 +0000
Subject: [PATCH 34/53] fix: averages over bins whose points cannot be computed
 are refused

---
 python/coffe/coffe.pyx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 7efdb1a..0dd9303 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1133,6 +1133,25 @@ cdef class Coffe:
             bias(z_far)
 
 
+    def _check_geometry_average(self, z_min, z_max, r):
+        """
+        Checks the geometry at the mean redshifts between which the multipoles
+        are averaged.
+        """
+        chi_max = get_spline_max(&self._background.z_as_chi)
+
+        for z, shift in ((z_min, r / 2), (z_max, -r / 2)):
+            chi = ccoffe.coffe_interp_spline(&self._background.comoving_distance, z) + shift
+            if not (z > 0 and 0 < chi < chi_max):
+                raise ValueError(
+                    f'The points separated by r = {r} in the bin z_min = {z_min}, z_max = {z_max} '
+                    'are not between the observer and the largest redshift'
+                )
+            self._check_geometry(
+                ccoffe.coffe_interp_spline(&self._background.z_as_chi, chi), r, 1
+            )
+
+
     def _check_contributions(self):
         if not any(
             [
@@ -3455,6 +3474,9 @@ cdef class Coffe:
         if not self._background.flag or recompute:
             self._background_init()
 
+        for z_min, z_max in zip(self.z_min, self.z_max):
+            self._check_geometry_average(z_min, z_max, max(self.sep))
+
         if not self._power_spectrum_flag or recompute:
             self._power_spectrum_init()
 
-- 
2.43.0


From af482bdc337fc2205f581ce25c5b6f80e3a79ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 35/53] fix: massive neutrinos are part of the expansion

---
 src/background.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/background.c b/src/background.c
index 9845cde..3913014 100644
--- a/src/background.c
+++ b/src/background.c
@@ -148,9 +148,7 @@ int coffe_get_bias_coefficients(
 
 struct integration_params
 {
-    double Omega0_cdm; /* omega parameter for cold dark matter */
-
-    double Omega0_baryon; /* omega parameter for baryons */
+    double Omega0_m; /* omega parameter for all matter, including massive neutrinos */
 
     double Omega0_gamma; /* omega parameter for photons */
 
@@ -287,7 +285,7 @@ static double integrand_comoving(
 {
     struct integration_params *par = (struct integration_params *) p;
     double integrand = 1./pow(
-        (par->Omega0_cdm + par->Omega0_baryon)*pow(1 + z, 3)
+        par->Omega0_m*pow(1 + z, 3)
        +par->Omega0_gamma*pow(1 + z, 4)
        +par->Omega0_de*coffe_interp_spline(&par->wint, z),
         1./2);
@@ -329,8 +327,7 @@ int coffe_background_init(
     temp_bg->comoving_distance = (double *)coffe_malloc(sizeof(double)*par->background_bins);
 
     struct integration_params ipar;
-    ipar.Omega0_cdm = par->Omega0_cdm;
-    ipar.Omega0_baryon = par->Omega0_baryon;
+    ipar.Omega0_m = par->Omega0_m;
     ipar.Omega0_gamma = par->Omega0_gamma;
     ipar.Omega0_de = par->Omega0_de;
     {
@@ -384,8 +381,8 @@ int coffe_background_init(
                 z_array[i] = z;
                 if (par->integration_1d_type == COFFE_INTEGRATION_GSL){
                     xint_array[i] =
-                        (ipar.Omega0_cdm + ipar.Omega0_baryon)
-                       /(1 - (ipar.Omega0_cdm + ipar.Omega0_baryon))
+                        ipar.Omega0_m
+                       /(1 - ipar.Omega0_m)
                        *exp(
                             -3 * coffe_integrate_1d_prec_gsl(
                                 &integrand_x,
@@ -398,8 +395,8 @@ int coffe_background_init(
                 }
                 else{
                     xint_array[i] =
-                        (ipar.Omega0_cdm + ipar.Omega0_baryon)
-                       /(1 - (ipar.Omega0_cdm + ipar.Omega0_baryon))
+                        ipar.Omega0_m
+                       /(1 - ipar.Omega0_m)
                        *exp(
                             -3 * coffe_integrate_1d_prec_double_exponential(
                                 &integrand_x,
@@ -414,8 +411,8 @@ int coffe_background_init(
             else{
                 z_array[i] = 0;
                 xint_array[i] =
-                    (ipar.Omega0_cdm + ipar.Omega0_baryon)
-                   /(1 - (ipar.Omega0_cdm + ipar.Omega0_baryon));
+                    ipar.Omega0_m
+                   /(1 - ipar.Omega0_m);
             }
         }
         coffe_init_spline(&ipar.xint, z_array, xint_array, bins + 1, COFFE_INTERP_LINEAR);
@@ -456,7 +453,7 @@ int coffe_background_init(
         (temp_bg->z)[i] = z;
         (temp_bg->a)[i] = 1./(1. + z);
         (temp_bg->Hz)[i] = sqrt(
-             (par->Omega0_cdm + par->Omega0_baryon)*pow(1 + z, 3)
+             par->Omega0_m*pow(1 + z, 3)
             +par->Omega0_gamma*pow(1 + z, 4)
             +par->Omega0_de*wint) * par->h * COFFE_H0; // in units 1 / Mpc
         (temp_bg->conformal_Hz)[i] = (temp_bg->a)[i]*(temp_bg->Hz)[i]; // in units 1 / Mpc
@@ -465,7 +462,7 @@ int coffe_background_init(
            *(
                 2 * (1 + z) * par->Omega0_gamma
                 +
-                (par->Omega0_cdm + par->Omega0_baryon)
+                par->Omega0_m
             )
             +
             (1 + 3 * w) * par->Omega0_de * wint
-- 
2.43.0


From 2bf3e815aa208480dc8e74629bec907504d846b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:52 +0000
Subject: [PATCH 36/53] fix: the growth of structure in a universe of matter
 only

---
 src/background.c | 61 ++++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/background.c b/src/background.c
index 3913014..2711128 100644
--- a/src/background.c
+++ b/src/background.c
@@ -158,7 +158,7 @@ struct integration_params
 
     coffe_interpolation wint; /* result of exp(3*int((1 + w(z))/(1 + z))) */
 
-    coffe_interpolation xint; /* result of Omega0_m/(1 - Omega0_m)*exp(-3*int(w(a)/a)) */
+    coffe_interpolation xint; /* matter fraction, Omega0_m/(Omega0_m + (1 - Omega0_m)*exp(3*int(w(a)/a))) */
 };
 
 
@@ -204,9 +204,9 @@ static int growth_rate_ode(
     double x = coffe_interp_spline(&par->xint, z);
 
     f[0] = y[1];
-    f[1] = -3./2*(1 - w/(1 + x))*y[1]/a
+    f[1] = -3./2*(1 - w*(1 - x))*y[1]/a
            +
-            3./2*x/(1 + x)*y[0]/pow(a, 2);
+            3./2*x*y[0]/pow(a, 2);
     return GSL_SUCCESS;
 }
 
@@ -234,14 +234,13 @@ static int growth_rate_jac(
     gsl_matrix *m = &dfdy_mat.matrix;
     gsl_matrix_set(m, 0, 0, 0.0);
     gsl_matrix_set(m, 0, 1, 1.0);
-    gsl_matrix_set(m, 1, 0, 3./2./pow(a, 2)*(x/(1 + x)));
-    gsl_matrix_set(m, 1, 1, -3./a/2./(1. - w/(1 + x)));
+    gsl_matrix_set(m, 1, 0, 3./2./pow(a, 2)*x);
+    gsl_matrix_set(m, 1, 1, -3./a/2.*(1. - w*(1 - x)));
     dfdt[0] = 0.0;
     dfdt[1] =
-        3*y[1]/pow(a, 2)/2./(1 - w/(1 + x))
-       -3*y[0]/pow(a, 3)*(x/(1 + x))
-       -3*y[0]/2./pow(a, 2)*(x*x_der/pow(1 + x, 2))
-       +3*y[0]/2./pow(a, 2)*(x_der/(1 + x));
+        3*y[1]/pow(a, 2)/2.*(1 - w*(1 - x))
+       -3*y[0]/pow(a, 3)*x
+       +3*y[0]/2./pow(a, 2)*x_der;
     return GSL_SUCCESS;
 }
 
@@ -382,37 +381,43 @@ int coffe_background_init(
                 if (par->integration_1d_type == COFFE_INTEGRATION_GSL){
                     xint_array[i] =
                         ipar.Omega0_m
-                       /(1 - ipar.Omega0_m)
-                       *exp(
-                            -3 * coffe_integrate_1d_prec_gsl(
-                                &integrand_x,
-                                &ipar,
-                                1. / (1 + z),
-                                1.,
-                                par->integration_1d_prec
+                       /(
+                            ipar.Omega0_m
+                            +
+                            (1 - ipar.Omega0_m)
+                           *exp(
+                                3 * coffe_integrate_1d_prec_gsl(
+                                    &integrand_x,
+                                    &ipar,
+                                    1. / (1 + z),
+                                    1.,
+                                    par->integration_1d_prec
+                                )
                             )
                         );
                 }
                 else{
                     xint_array[i] =
                         ipar.Omega0_m
-                       /(1 - ipar.Omega0_m)
-                       *exp(
-                            -3 * coffe_integrate_1d_prec_double_exponential(
-                                &integrand_x,
-                                &ipar,
-                                1. / (1 + z),
-                                1.,
-                                par->integration_1d_prec
+                       /(
+                            ipar.Omega0_m
+                            +
+                            (1 - ipar.Omega0_m)
+                           *exp(
+                                3 * coffe_integrate_1d_prec_double_exponential(
+                                    &integrand_x,
+                                    &ipar,
+                                    1. / (1 + z),
+                                    1.,
+                                    par->integration_1d_prec
+                                )
                             )
                         );
                 }
             }
             else{
                 z_array[i] = 0;
-                xint_array[i] =
-                    ipar.Omega0_m
-                   /(1 - ipar.Omega0_m);
+                xint_array[i] = ipar.Omega0_m;
             }
         }
         coffe_init_spline(&ipar.xint, z_array, xint_array, bins + 1, COFFE_INTERP_LINEAR);
-- 
2.43.0


From d0992e5f27b7bfc98a7133c0129283e07dd8e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 37/53] fix: baryons which replace cold dark matter are not
 refused

---
 python/coffe/coffe.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 0dd9303..5430762 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1300,7 +1300,8 @@ cdef class Coffe:
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
         if value != self.omega_baryon:
             # we set the value, rebalance the Omega budget, and free memory
-            self._check_omegas(value, self.omega_cdm, self.omega_gamma)
+            # the total matter stays, so cold dark matter makes room for the baryons
+            self._check_omegas(value, self.omega_gamma)
             self._parameters.Omega0_baryon = value / self._coeff
             self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
-- 
2.43.0


From eeaac100a641b768a0878ab67b80176989f98a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:10 +0000
Subject: [PATCH 38/53] fix: the binned covariance of high multipoles

---
 src/covariance.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 09f1748..6ae5332 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -202,24 +202,37 @@ static double integral_power_spherical_bessel1_unit(
         fprintf(stderr, "WARNING: n = %d not implemented\n", n);
         return 0;
     }
+    /* the closed forms cancel at small x, unlike the series; both vanish at x = 0 */
+    if (fabs(x) < l + 1){
+        double factorial2 = 1;
+        for (int i = 3; i <= 2 * l + 1; i += 2)
+            factorial2 *= i;
+        double term = pow(x, l + 3) / factorial2;
+        double result = 0;
+        for (int i = 0; i < 100 && fabs(term) > 1e-17 * fabs(result); ++i){
+            result += term / (2 * i + l + 3);
+            term *= -x * x / 2. / (i + 1) / (2 * i + 2 * l + 3);
+        }
+        return result;
+    }
     switch (l){
         case 0:
             return -x * cos(x) + sin(x);
             break;
         case 1:
-            return - 2. * cos(x) - x * sin(x);
+            return 2 - 2. * cos(x) - x * sin(x);
             break;
         case 2:
             return x * cos(x) - 4. * sin(x) + 3. * gsl_sf_Si(x);
             break;
         case 3:
-            return 7. * cos(x) + ((-15. + x * x) * sin(x)) / x;
+            return 8 + 7. * cos(x) + ((-15. + x * x) * sin(x)) / x;
             break;
         case 4:
             return ((105. / x - 2. * x) * cos(x) + (22. - 105. / pow(x, 2)) * sin(x) + 15. * gsl_sf_Si(x)) / 2.;
             break;
         case 5:
-            return ((315 * x - 16 * pow(x, 3)) * cos(x) - (315 - 105 * pow(x, 2) + pow(x, 4)) * sin(x)) / pow(x, 3);
+            return 16 + ((315 * x - 16 * pow(x, 3)) * cos(x) - (315 - 105 * pow(x, 2) + pow(x, 4)) * sin(x)) / pow(x, 3);
             break;
         case 6:
             return (
@@ -231,7 +244,12 @@ static double integral_power_spherical_bessel1_unit(
             ) / (8. * pow(x, 4));
             break;
         default:
-            fprintf(stderr, "WARNING: l = %d not implemented.\n", l);
+            /* recurrence relation */
+            return (
+                (l + 1) * integral_power_spherical_bessel1_unit(n, l - 2, x)
+                -
+                (2 * l - 1) * pow(x, 2) * gsl_sf_bessel_jl(l - 1, x)
+            ) / (l - 2);
             break;
     }
     return 0;
-- 
2.43.0


From e6d1c120c95162583925f34955c39eea6f48ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:30 +0000
Subject: [PATCH 39/53] fix: power spectra at wavenumbers which are not
 positive are refused

---
 python/coffe/coffe.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 5430762..4002839 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3048,6 +3048,9 @@ cdef class Coffe:
         # value checking
         _check_table(k, pk)
 
+        if not k[0] > 0:
+            raise ValueError('The wavenumbers must be positive')
+
         _check_parameter('z', z, (int, float), 0, 15)
 
         # the spectrum which is kept is the one at z = 0
-- 
2.43.0


From b9f1d295cdb913071767315209887a3528b42e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:29 +0000
Subject: [PATCH 40/53] fix: separations beyond the tables of the integrals are
 refused

---
 python/coffe/coffe.pyx | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 4002839..1f4aeff 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1114,6 +1114,21 @@ cdef class Coffe:
                 'The current contributions cannot be computed at zero separation'
             )
 
+        # the integrals are only known up to some separation
+        r_max = (self.k_max / self.k_min)**(1 - 1 / self.integrals_fftlog_sampling)
+        if any([self.has_lensing, self.has_g4, self.has_g5]):
+            far = max(r, chi + r * abs(mu) / 2)
+        else:
+            far = r
+        # the divergent integral is tabulated up to this one
+        if any([self.has_g4, self.has_g5]):
+            r_max = min(r_max, 20000)
+        if not far <= r_max:
+            raise ValueError(
+                f'The points separated by r = {r} at redshift z = {z} need integrals at '
+                f'separations up to {far}, which are only known up to {r_max}'
+            )
+
         # the biases which are used must be known at both points
         cdef double z_near = ccoffe.coffe_interp_spline(
             &self._background.z_as_chi, chi - r * abs(mu) / 2
@@ -1787,6 +1802,12 @@ cdef class Coffe:
                 f'Cannot find integral with n = {n}, l = {l}'
             )
 
+        r_min, r_max = get_spline_min(&result.result), get_spline_max(&result.result)
+        if not r_min <= r <= r_max:
+            raise ValueError(
+                f'The integral is only known for separations between {r_min} and {r_max}'
+            )
+
         return ccoffe.coffe_interp_spline(&result.result, r)
 
 
-- 
2.43.0


From 5e9bb3c70c0e31c383c4fbfd1bd3f773a2069dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:53 +0000
Subject: [PATCH 41/53] fix: read the densities of a settings file when they do
 not fit with the default ones

---
 python/coffe/coffe.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 1f4aeff..d9b7b65 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -692,8 +692,8 @@ cdef class Coffe:
         options_float = [
             # in this order none of them is refused because of the default of another
             "omega_baryon",
-            "omega_gamma",
             "omega_m",
+            "omega_gamma",
             "w0",
             "wa",
             "h",
@@ -716,6 +716,11 @@ cdef class Coffe:
             "YHe",
             "integration_1d_prec",
         ]
+        # matter and radiation which fit together may not fit together with the
+        # default of the other
+        if "omega_m" in config and "omega_gamma" in config:
+            cosmo.omega_gamma = 0
+
         for option in options_float:
             if option in config:
                 setattr(cosmo, option, config.getfloat(option))
-- 
2.43.0


From a94d4f05f68d4aa141012ca91ba6246670ac1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:53 +0000
Subject: [PATCH 42/53] fix: read empty lists from a settings file

---
 python/coffe/coffe.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index d9b7b65..418e5bc 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -65,13 +65,15 @@ class CoffeConfigParser(ConfigParser):
         """
         Converts the value of the option to a list of floats
         """
-        return [float(_) for _ in self.get(section, option).strip("[]").split(",")]
+        items = self.get(section, option).strip("[]")
+        return [float(_) for _ in items.split(",")] if items.strip() else []
 
     def getint_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of ints
         """
-        return [int(_) for _ in self.get(section, option).strip("[]").split(",")]
+        items = self.get(section, option).strip("[]")
+        return [int(_) for _ in items.split(",")] if items.strip() else []
 
     def getstr_array(self, section, option, *args, **kwargs):
         """
-- 
2.43.0


From 92a5e7d0614c1ebef3e836babf78f521abb626fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:53 +0000
Subject: [PATCH 43/53] fix: read the range of a supplied power spectrum from a
 settings file

---
 python/coffe/coffe.pyx | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 418e5bc..b9cdd4f 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -713,8 +713,6 @@ cdef class Coffe:
             "ur_fluid_trigger_tau_over_tau_k",
             "N_ur",
             "m_ncdm",
-            "k_min",
-            "k_max",
             "YHe",
             "integration_1d_prec",
         ]
@@ -727,6 +725,12 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getfloat(option))
 
+        if "k_min" in config or "k_max" in config:
+            cosmo._set_wavenumber_range(
+                config.getfloat("k_min", cosmo.k_min),
+                config.getfloat("k_max", cosmo.k_max),
+            )
+
         options_int = [
             "has_density",
             "has_lensing",
@@ -3051,6 +3055,22 @@ cdef class Coffe:
         self._free_except_parameters()
 
 
+    def _set_wavenumber_range(self, k_min : float, k_max : float):
+        """
+        Sets the range of the wavenumbers; unlike the setters of `k_min` and
+        `k_max`, allows the range of any power spectrum that can be set.
+        """
+        if not 0 < k_min < k_max < np.inf:
+            raise ValueError(
+                f'Cannot use the wavenumbers between {k_min} and {k_max}'
+            )
+        self._parameters.k_min = k_min
+        self._parameters.k_min_norm = k_min
+        self._parameters.k_max = k_max
+        self._parameters.k_max_norm = k_max
+        self._free_except_parameters()
+
+
     def set_power_spectrum_linear(self, k : List[float], pk : List[float], z : float = 0):
         r"""
         Sets the linear matter power spectrum, optionally at some redshift (by
-- 
2.43.0


From 229017cf79b5fd4455caf98402f6a321eeceb082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:53 +0000
Subject: [PATCH 44/53] fix: coffe-cli refuses settings which are not lists of
 the right kind

---
 src/parser.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index b644f0d..7d6f736 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -135,6 +135,47 @@ static int parse_string(
 }
 
 
+/**
+    stores the length of the list <type> into <values_len>;
+    settings which aren't lists, or which are empty, are refused
+**/
+
+static void parse_list_check(
+    const config_setting_t *type,
+    const char *setting,
+    size_t *values_len
+)
+{
+    if (
+        !(config_setting_is_array(type) || config_setting_is_list(type)) ||
+        config_setting_length(type) <= 0
+    ){
+        fprintf(
+            stderr,
+            "ERROR: the value of setting %s must be a non-empty list\n", setting
+        );
+        exit(EXIT_FAILURE);
+    }
+    *values_len = (size_t)config_setting_length(type);
+}
+
+
+/**
+    refuses elements of the list <setting> which aren't numbers
+**/
+
+static void parse_number_check(
+    const config_setting_t *element,
+    const char *setting
+)
+{
+    if (element == NULL || !config_setting_is_number(element)){
+        fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
+        exit(EXIT_FAILURE);
+    }
+}
+
+
 /**
     parses an array of strings from the setting <setting>
     in config file <conf> into <values> with length <values_len>
@@ -152,7 +193,7 @@ static int parse_string_array(
         fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
         exit(EXIT_FAILURE);
     }
-    *values_len = (size_t)config_setting_length(type);
+    parse_list_check(type, setting, values_len);
 
     *values = (char **)malloc(sizeof(char *) * *values_len);
     if (*values == NULL){
@@ -193,13 +234,14 @@ static int parse_int_array(
         fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
         exit(EXIT_FAILURE);
     }
-    *values_len = (size_t)config_setting_length(type);
+    parse_list_check(type, setting, values_len);
 
     *values = (int *)coffe_malloc(sizeof(int) * *values_len);
 
     int temp_value;
 
     for (size_t i = 0; i < *values_len; ++i){
+        parse_number_check(config_setting_get_elem(type, i), setting);
         temp_value = config_setting_get_int_elem(type, i);
         *(*values + i) = temp_value;
     }
@@ -224,13 +266,14 @@ static int parse_double_array(
         fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
         exit(EXIT_FAILURE);
     }
-    *values_len = (size_t)config_setting_length(type);
+    parse_list_check(type, setting, values_len);
 
     *values = (double *)coffe_malloc(sizeof(double) * *values_len);
 
     double temp_value;
 
     for (size_t i = 0; i < *values_len; ++i){
+        parse_number_check(config_setting_get_elem(type, i), setting);
         temp_value = config_setting_get_float_elem(type, i);
         *(*values + i) = temp_value;
     }
@@ -1074,7 +1117,10 @@ int coffe_parser_init(
     }
 
     parse_int(conf, "output_type", &par->output_type, COFFE_TRUE);
-    if (config_lookup(conf, "output_background") != NULL)
+    if (
+        config_lookup(conf, "output_background") != NULL &&
+        config_setting_length(config_lookup(conf, "output_background")) > 0
+    )
         parse_string_array(conf, "output_background", &par->type_bg, &par->type_bg_len);
     parse_int(conf, "background_sampling", &par->background_bins, COFFE_TRUE);
 
-- 
2.43.0


From 3acbb778c496578eed1170d1811e4a7ce7d6a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:53 +0000
Subject: [PATCH 45/53] fix: coffe-cli refuses unknown contributions,
 background columns, output and interpolation types

---
 src/parser.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 7d6f736..e28b41b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1117,11 +1117,36 @@ int coffe_parser_init(
     }
 
     parse_int(conf, "output_type", &par->output_type, COFFE_TRUE);
+    if (
+        par->output_type < CORRFUNC ||
+        par->output_type > COVARIANCE_AVERAGE_MULTIPOLES
+    ){
+        print_error_verbose(PROG_VALUE_ERROR, "output_type");
+        exit(EXIT_FAILURE);
+    }
     if (
         config_lookup(conf, "output_background") != NULL &&
         config_setting_length(config_lookup(conf, "output_background")) > 0
     )
         parse_string_array(conf, "output_background", &par->type_bg, &par->type_bg_len);
+    /* there are this many columns in the output */
+    if (par->type_bg_len > 20){
+        print_error_verbose(PROG_VALUE_ERROR, "output_background");
+        exit(EXIT_FAILURE);
+    }
+    for (size_t i = 0; i < par->type_bg_len; ++i){
+        const char *names[] = {
+            "z", "a", "H", "conformal_H", "conformal_H_prime", "D1", "f",
+            "comoving_distance"
+        };
+        size_t n = 0;
+        while (n < COFFE_ARRAY_SIZE(names) && strcmp(par->type_bg[i], names[n]) != 0)
+            ++n;
+        if (n == COFFE_ARRAY_SIZE(names)){
+            print_error_verbose(PROG_VALUE_ERROR, par->type_bg[i]);
+            exit(EXIT_FAILURE);
+        }
+    }
     parse_int(conf, "background_sampling", &par->background_bins, COFFE_TRUE);
 
     /* cosmological parameters */
@@ -1163,6 +1188,10 @@ int coffe_parser_init(
     {
     int temp = (int)par->interp_method;
     parse_int(conf, "interpolation", &temp, COFFE_FALSE);
+    if (temp < COFFE_INTERP_LINEAR || temp > COFFE_INTERP_STEFFEN){
+        print_error_verbose(PROG_VALUE_ERROR, "interpolation");
+        exit(EXIT_FAILURE);
+    }
     par->interp_method = (enum coffe_interp1d_type)temp;
     }
 
@@ -1533,6 +1562,10 @@ int coffe_parser_init(
             par->correlation_contrib.g4 = 1;
         else if (strcmp(correlation_contributions[i], "g5") == 0)
             par->correlation_contrib.g5 = 1;
+        else{
+            print_error_verbose(PROG_VALUE_ERROR, correlation_contributions[i]);
+            exit(EXIT_FAILURE);
+        }
     }
 
     for (size_t i = 0; i < correlation_contributions_len; ++i)
-- 
2.43.0


From beadc9a41808ef60fc66158534f14c2b49836dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:36 +0000
Subject: [PATCH 46/53] fix: coffe-cli refuses settings out of range

---
 src/parser.c | 90 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 88 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index e28b41b..6a2262c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -281,6 +281,49 @@ static int parse_double_array(
 }
 
 
+/**
+    refuses the values of the setting <setting> which aren't
+    above <min> and not above <max>
+**/
+
+static void parse_range_check(
+    const char *setting,
+    const double *values,
+    const size_t values_len,
+    const double min,
+    const double max
+)
+{
+    for (size_t i = 0; i < values_len; ++i){
+        if (!(values[i] > min && values[i] <= max)){
+            print_error_verbose(PROG_VALUE_ERROR, setting);
+            exit(EXIT_FAILURE);
+        }
+    }
+}
+
+
+/**
+    refuses redshift bins which are empty or outside of the range
+    of the background
+**/
+
+static void parse_bins_check(
+    const char *setting,
+    const double *zmin,
+    const double *zmax,
+    const size_t len
+)
+{
+    for (size_t i = 0; i < len; ++i){
+        if (!(zmin[i] > 0 && zmax[i] > zmin[i] && zmax[i] < 15)){
+            print_error_verbose(PROG_VALUE_ERROR, setting);
+            exit(EXIT_FAILURE);
+        }
+    }
+}
+
+
 /**
     parses the value of bias given by <setting> from config <conf>
     into coffe_interpolation <spline> depending on value of <flag>
@@ -1148,12 +1191,22 @@ int coffe_parser_init(
         }
     }
     parse_int(conf, "background_sampling", &par->background_bins, COFFE_TRUE);
+    /* the minimum for Akima interpolation */
+    if (par->background_bins < 5){
+        print_error_verbose(PROG_VALUE_ERROR, "background_sampling");
+        exit(EXIT_FAILURE);
+    }
 
     /* cosmological parameters */
     parse_double(conf, "omega_m", &par->Omega0_m, COFFE_TRUE);
     parse_double(conf, "omega_baryon", &par->Omega0_baryon, COFFE_TRUE);
     parse_double(conf, "omega_gamma", &par->Omega0_gamma, COFFE_TRUE);
 
+    if (!(par->Omega0_m + par->Omega0_gamma <= 1)){
+        print_error_verbose(PROG_VALUE_ERROR, "omega_m, omega_gamma");
+        exit(EXIT_FAILURE);
+    }
+
     par->Omega0_de = 1. - (par->Omega0_m + par->Omega0_gamma);
 
     /* mean redshift */
@@ -1182,6 +1235,7 @@ int coffe_parser_init(
             print_error_verbose(PROG_VALUE_ERROR, "z_min, z_max");
             exit(EXIT_FAILURE);
         }
+        parse_bins_check("z_min, z_max", par->zmin, par->zmax, par->zmin_len);
     }
 
     /* the interpolation method for GSL */
@@ -1198,6 +1252,12 @@ int coffe_parser_init(
     /* the cosine of the angle for the full sky correlation function */
     if (par->output_type == CORRFUNC){
         parse_double_array(conf, "mu", &par->mu, &par->mu_len);
+        for (size_t i = 0; i < par->mu_len; ++i){
+            if (!(par->mu[i] >= -1 && par->mu[i] <= 1)){
+                print_error_verbose(PROG_VALUE_ERROR, "mu");
+                exit(EXIT_FAILURE);
+            }
+        }
     }
 
     /* the multipoles of the correlation function */
@@ -1211,6 +1271,12 @@ int coffe_parser_init(
             free(par->multipole_values);
         par->multipole_values_len = 0;
         parse_int_array(conf, "multipoles", &par->multipole_values, &par->multipole_values_len);
+        for (size_t i = 0; i < par->multipole_values_len; ++i){
+            if (par->multipole_values[i] < 0 || par->multipole_values[i] > 10){
+                print_error_verbose(PROG_VALUE_ERROR, "multipoles");
+                exit(EXIT_FAILURE);
+            }
+        }
     }
 
     /* the custom separations for the ang/full correlation function or multipoles */
@@ -1245,7 +1311,7 @@ int coffe_parser_init(
                 sampling = (int)ceil((xmax - xmin) / step - 1e-10);
             xmax = xmin + sampling * step;
         }
-        if (sampling <= 0){
+        if (sampling <= 0 || !(xmin > 0)){
             print_error_verbose(PROG_VALUE_ERROR, "separations");
             exit(EXIT_FAILURE);
         }
@@ -1257,6 +1323,10 @@ int coffe_parser_init(
 
     /* number of points to sample the integral of the Bessel function */
     parse_int(conf, "bessel_sampling", &par->bessel_bins, COFFE_TRUE);
+    if (par->bessel_bins <= 0){
+        print_error_verbose(PROG_VALUE_ERROR, "bessel_sampling");
+        exit(EXIT_FAILURE);
+    }
 
 #ifndef HAVE_CUBA
     /* parsing the integration method */
@@ -1269,6 +1339,10 @@ int coffe_parser_init(
 
     /* number of points for the 2-3-4D integration */
     parse_int(conf, "integration_sampling", &par->integration_bins, COFFE_TRUE);
+    if (par->integration_bins < 2){
+        print_error_verbose(PROG_VALUE_ERROR, "integration_sampling");
+        exit(EXIT_FAILURE);
+    }
 
     /* integration method for covariance */
     parse_int(conf, "covariance_integration_method", &par->covariance_integration_method, COFFE_TRUE);
@@ -1457,6 +1531,10 @@ int coffe_parser_init(
             &par->covariance_window,
             COFFE_TRUE
         );
+        parse_range_check("density1", par->density1, par->density1_len, 0, INFINITY);
+        parse_range_check("density2", par->density2, par->density2_len, 0, INFINITY);
+        parse_range_check("fsky", par->fsky, par->fsky_len, 0, 1);
+        parse_range_check("pixelsize", par->pixelsize, par->pixelsize_len, 0, INFINITY);
     }
 
     if (par->output_type == COVARIANCE_MULTIPOLES){
@@ -1492,6 +1570,8 @@ int coffe_parser_init(
                 "please ensure they have the same length!\n");
             exit(EXIT_FAILURE);
         }
+        for (size_t i = 0; i < par->deltaz_len; ++i)
+            parse_range_check("deltaz", &par->deltaz[i], 1, 0, par->z_mean[i]);
     }
 
     if (par->output_type == COVARIANCE_AVERAGE_MULTIPOLES){
@@ -1511,7 +1591,8 @@ int coffe_parser_init(
             par->density1_len != par->fsky_len ||
             par->density1_len != par->density2_len ||
             par->density1_len != par->zmin_len ||
-            par->density1_len != par->zmax_len
+            par->density1_len != par->zmax_len ||
+            par->density1_len != par->pixelsize_len
         ){
             fprintf(
                 stderr,
@@ -1519,6 +1600,7 @@ int coffe_parser_init(
                 "please ensure they have the same length!\n");
             exit(EXIT_FAILURE);
         }
+        parse_bins_check("zmin, zmax", par->zmin, par->zmax, par->zmin_len);
     }
 
     /* parsing the contributions to the correlation function and covariance */
@@ -1618,6 +1700,10 @@ int coffe_parser_init(
     /* parsing the k range */
     parse_double(conf, "k_min", &par->k_min, COFFE_TRUE);
     parse_double(conf, "k_max", &par->k_max, COFFE_TRUE);
+    if (!(par->k_min > 0 && par->k_max > par->k_min)){
+        print_error_verbose(PROG_VALUE_ERROR, "k_min, k_max");
+        exit(EXIT_FAILURE);
+    }
 
     /* parsing the window */
     parse_int(conf, "have_window", &par->have_window, COFFE_TRUE);
-- 
2.43.0


From 445a85ac5e7a938dc35a519c88de7630126554a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:36 +0000
Subject: [PATCH 47/53] fix: coffe-cli neither cuts off nor overflows on long
 or empty paths

---
 src/main.c   |  4 ++++
 src/output.c | 16 ++++++++++++++--
 src/parser.c |  7 ++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index b633b6e..63fc46f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -96,6 +96,10 @@ int main(int argc, char *argv[])
         return EXIT_SUCCESS;
     }
     else{
+        if (strlen(settings_opt) >= COFFE_MAX_STRLEN){
+            print_error_verbose(PROG_OPEN_ERROR, settings_opt);
+            exit(EXIT_FAILURE);
+        }
         strncpy(settings_file, settings_opt, COFFE_MAX_STRLEN);
     }
     clock_t start, end;
diff --git a/src/output.c b/src/output.c
index 7abed9f..4dc269c 100644
--- a/src/output.c
+++ b/src/output.c
@@ -45,6 +45,12 @@ static int output_make_path(char *path)
     struct stat temp_status = {0};
     char *current_dir;
     char temp_path[COFFE_MAX_STRLEN];
+    /* an empty path is the current directory, and there must be enough space for a slash */
+    if (path[0] == '\0') strncpy(path, ".", COFFE_MAX_STRLEN);
+    if (strlen(path) + 2 > COFFE_MAX_STRLEN){
+        print_error_verbose(PROG_OPEN_ERROR, path);
+        return EXIT_FAILURE;
+    }
     strncpy(temp_path, path, COFFE_MAX_STRLEN);
 
     if (stat(path, &temp_status) == 0){
@@ -389,14 +395,20 @@ int coffe_output_init(
     char filepath[COFFE_MAX_STRLEN];
     char prefix[COFFE_MAX_STRLEN];
     char header[COFFE_MAX_STRLEN];
+    int prefix_len;
     if (output_make_path(par->output_path) != EXIT_SUCCESS)
         exit(EXIT_FAILURE);
 
     if (strcmp(par->output_prefix, "$TIME") == 0){
-        snprintf(prefix, COFFE_MAX_STRLEN, "%s%s_", par->output_path, par->timestamp);
+        prefix_len = snprintf(prefix, COFFE_MAX_STRLEN, "%s%s_", par->output_path, par->timestamp);
     }
     else{
-        snprintf(prefix, COFFE_MAX_STRLEN, "%s%s", par->output_path, par->output_prefix);
+        prefix_len = snprintf(prefix, COFFE_MAX_STRLEN, "%s%s", par->output_path, par->output_prefix);
+    }
+    /* the names of the files are cut off otherwise */
+    if (prefix_len + strlen("covariance_average_multipoles.dat") + 1 > COFFE_MAX_STRLEN){
+        print_error_verbose(PROG_OPEN_ERROR, prefix);
+        exit(EXIT_FAILURE);
     }
 
     if (par->verbose)
diff --git a/src/parser.c b/src/parser.c
index 6a2262c..08c1327 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -115,8 +115,13 @@ static int parse_string(
 {
     const char *temp_value;
     int error = config_lookup_string(conf, setting, &temp_value);
-    if (error == CONFIG_TRUE)
+    if (error == CONFIG_TRUE){
+        if (strlen(temp_value) >= COFFE_MAX_STRLEN){
+            fprintf(stderr, "ERROR: the value of setting %s is too long\n", setting);
+            exit(EXIT_FAILURE);
+        }
         snprintf(value, COFFE_MAX_STRLEN, "%s", temp_value);
+    }
     if (safe == COFFE_TRUE){
         if (error != 1){
             fprintf(stderr,
-- 
2.43.0


From 165ed094e3f80fa297b53f090befc61dc4d0fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:58 +0000
Subject: [PATCH 48/53] fix: coffe-cli fails when a file cannot be written
 completely

---
 src/common.c |  7 ++++++-
 src/output.c | 40 ++++++++++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/common.c b/src/common.c
index 5ab3058..5082be9 100644
--- a/src/common.c
+++ b/src/common.c
@@ -403,7 +403,12 @@ int write_ncol_null(
                     fprintf(data, "%.10e%s\n", all_values[j][i], sep);
             }
         }
-        fclose(data);
+        const int write_error = ferror(data);
+        if (fclose(data) != 0 || write_error){
+            print_error_verbose(PROG_WRITE_ERROR, filename);
+            free(all_values);
+            return EXIT_FAILURE;
+        }
     }
     for (size_t i = 0; i<counter; ++i){
         all_values[i] = NULL;
diff --git a/src/output.c b/src/output.c
index 4dc269c..d26bfaa 100644
--- a/src/output.c
+++ b/src/output.c
@@ -100,6 +100,20 @@ static FILE *output_open(const char *filepath)
 }
 
 
+/**
+    closes a file opened by output_open, unless something couldn't be written to it
+**/
+
+static void output_close(FILE *file, const char *filepath)
+{
+    const int error = ferror(file);
+    if (fclose(file) != 0 || error){
+        print_error_verbose(PROG_WRITE_ERROR, filepath);
+        exit(EXIT_FAILURE);
+    }
+}
+
+
 static int output_correlation_contributions_header(
     const struct coffe_correlation_contributions cc,
     char *header
@@ -150,7 +164,7 @@ static int output_corrfunc(
             cf->array[i].value
         );
     }
-    fclose(data);
+    output_close(data, filepath);
     return EXIT_SUCCESS;
 }
 
@@ -183,7 +197,7 @@ static int output_multipoles(
             mp->array[i].value
         );
     }
-    fclose(data);
+    output_close(data, filepath);
 
     return EXIT_SUCCESS;
 }
@@ -218,7 +232,7 @@ static int output_average_multipoles(
             ramp->array[i].value
         );
     }
-    fclose(data);
+    output_close(data, filepath);
 
     return EXIT_SUCCESS;
 }
@@ -253,7 +267,7 @@ static int output_covariance(
             cov->array[i].value
         );
     }
-    fclose(output);
+    output_close(output, filepath);
 
     return EXIT_SUCCESS;
 }
@@ -344,7 +358,7 @@ static int output_background(
     strncat(header, "\n", COFFE_MAX_STRLEN);
 
     // I'm not proud of the way I handle this...
-    write_ncol_null(
+    const int error = write_ncol_null(
         filename,
         par->background_bins,
         header,
@@ -373,7 +387,7 @@ static int output_background(
     for (size_t i = 0; i<20; ++i){
         free(outputs[i]);
     }
-    return EXIT_SUCCESS;
+    return error;
 }
 
 int coffe_output_init(
@@ -416,12 +430,18 @@ int coffe_output_init(
 
     /* settings file copy */
     snprintf(filepath, COFFE_MAX_STRLEN, "%ssettings.cfg", prefix);
-    if (par->conf != NULL)
-        config_write_file(par->conf, filepath);
+    if (
+        par->conf != NULL &&
+        config_write_file(par->conf, filepath) != CONFIG_TRUE
+    ){
+        print_error_verbose(PROG_WRITE_ERROR, filepath);
+        exit(EXIT_FAILURE);
+    }
 
     /* background */
     snprintf(filepath, COFFE_MAX_STRLEN, "%sbackground.dat", prefix);
-    output_background(filepath, "\t", par, bg);
+    if (output_background(filepath, "\t", par, bg) != EXIT_SUCCESS)
+        exit(EXIT_FAILURE);
 
     /* correlation function (full) */
     if (par->output_type == CORRFUNC){
@@ -469,7 +489,7 @@ int coffe_output_init(
                 cov_ramp->array[i].value
             );
         }
-        fclose(output);
+        output_close(output, filepath);
     }
 
 #ifdef HAVE_INTEGRALS
-- 
2.43.0


From 442c59616a1f5cb8dd590a3733b8a149a6b7984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:21 +0000
Subject: [PATCH 49/53] fix: coffe-cli reads tables to their end and refuses
 those it cannot interpolate

---
 src/common.c | 62 ++++++++++++++++++++++++++++++++--------------------
 src/parser.c | 30 +++++++++++++++++++++++++
 2 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/src/common.c b/src/common.c
index 5082be9..64b5884 100644
--- a/src/common.c
+++ b/src/common.c
@@ -165,6 +165,26 @@ int read_1col(
 }
 
 
+/**
+    reads the next line of <file> which is neither empty nor a comment into
+    <line>, which can hold <size> characters; anything beyond that is skipped;
+    returns 0 at the end of the file
+**/
+
+static int read_line(char *line, const size_t size, FILE *file)
+{
+    while (fgets(line, (int)size, file) != NULL){
+        if (strchr(line, '\n') == NULL){
+            int c;
+            while ((c = fgetc(file)) != EOF && c != '\n');
+        }
+        if (line[0] != '#' && line[strspn(line, ",\t: \r\n")] != '\0')
+            return 1;
+    }
+    return 0;
+}
+
+
 /**
     reads file <filename> into arrays <values1>
     and <values2> of length <len>
@@ -183,25 +203,11 @@ int read_2col(
         print_error_verbose(PROG_OPEN_ERROR, filename);
         return EXIT_FAILURE;
     }
-    size_t n = 0;
-    char c, temp_string[COFFE_MAX_STRLEN];
+    char temp_string[COFFE_MAX_STRLEN];
     char *temp_token;
 
-    while ((c=fgetc(data)) != EOF){
-        if (c == '\n') ++n;
-    }
-
-    error = fseek(data, 0, SEEK_SET);
-    if (error){
-        print_error_verbose(PROG_POS_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-
     size_t counter = 0;
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#') ++counter;
-    }
+    while (read_line(temp_string, COFFE_MAX_STRLEN, data)) ++counter;
     *len = counter;
 
     error = fseek(data, 0, SEEK_SET);
@@ -214,15 +220,23 @@ int read_2col(
     *values2 = (double *)coffe_malloc(sizeof(double)*counter);
     counter = 0;
 
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#'){
-            temp_token = strtok(temp_string, ",\t: ");
-            *(*values1 + counter) = atof(temp_token);
-            temp_token = strtok(NULL, ",\t: ");
-            *(*values2 + counter) = atof(temp_token);
-            ++counter;
+    while (counter < *len && read_line(temp_string, COFFE_MAX_STRLEN, data)){
+        double *values[] = {*values1, *values2};
+        temp_token = strtok(temp_string, ",\t: \r\n");
+        for (size_t i = 0; i<2; ++i){
+            char *end = NULL;
+            if (temp_token != NULL) values[i][counter] = strtod(temp_token, &end);
+            /* there aren't two numbers in this line */
+            if (temp_token == NULL || end == temp_token){
+                print_error_verbose(PROG_READ_ERROR, filename);
+                free(*values1);
+                free(*values2);
+                fclose(data);
+                return EXIT_FAILURE;
+            }
+            temp_token = strtok(NULL, ",\t: \r\n");
         }
+        ++counter;
     }
 
     error = fclose(data);
diff --git a/src/parser.c b/src/parser.c
index 08c1327..e4aef75 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -329,6 +329,34 @@ static void parse_bins_check(
 }
 
 
+/**
+    refuses tables from the file <filename> which cannot be interpolated
+**/
+
+static void parse_table_check(
+    const char *filename,
+    const double *x,
+    const size_t len,
+    const enum coffe_interp1d_type method
+)
+{
+    /* the least number of points which the interpolation method can handle */
+    size_t len_min = 3;
+    if (method == COFFE_INTERP_LINEAR) len_min = 2;
+    if (method == COFFE_INTERP_AKIMA || method == COFFE_INTERP_AKIMA_PERIODIC)
+        len_min = 5;
+
+    int error = len < len_min;
+    for (size_t i = 1; i < len; ++i)
+        if (!(x[i] > x[i - 1])) error = 1;
+
+    if (error){
+        print_error_verbose(PROG_READ_ERROR, filename);
+        exit(EXIT_FAILURE);
+    }
+}
+
+
 /**
     parses the value of bias given by <setting> from config <conf>
     into coffe_interpolation <spline> depending on value of <flag>
@@ -355,6 +383,7 @@ static int parse_bias(
             &len
         ) != EXIT_SUCCESS)
             exit(EXIT_FAILURE);
+        parse_table_check(filename, redshifts, len, method);
         coffe_init_spline(spline, redshifts, values, len, method);
         free(redshifts);
         free(values);
@@ -1782,6 +1811,7 @@ int coffe_parser_init(
         );
 
         if (error == EXIT_SUCCESS){
+            parse_table_check(par->file_power_spectrum, k, pk_len, par->interp_method);
             if (par->have_window){
                 for (size_t i = 0; i < pk_len; ++i)
                     pk[i] *= pow(
-- 
2.43.0


From 171f1fc4fc07bba5c9e02400bc2dc3d28b02daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:21 +0000
Subject: [PATCH 50/53] fix: coffe-cli refuses optional settings of the wrong
 kind

---
 src/parser.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index e4aef75..f832b21 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -62,7 +62,8 @@ static int parse_double(
 )
 {
     int error = config_lookup_float(conf, setting, value);
-    if (safe == COFFE_TRUE){
+    /* optional settings must be correct if they are there */
+    if (safe == COFFE_TRUE || config_lookup(conf, setting) != NULL){
         if (error != 1){
             fprintf(stderr,
                 "ERROR: cannot parse value of setting %s\n",
@@ -89,7 +90,8 @@ static int parse_int(
 )
 {
     int error = config_lookup_int(conf, setting, value);
-    if (safe == COFFE_TRUE){
+    /* optional settings must be correct if they are there */
+    if (safe == COFFE_TRUE || config_lookup(conf, setting) != NULL){
         if (error != 1){
             fprintf(stderr, "ERROR: cannot parse value of setting %s\n", setting);
             exit(EXIT_FAILURE);
@@ -1202,8 +1204,10 @@ int coffe_parser_init(
         exit(EXIT_FAILURE);
     }
     if (
-        config_lookup(conf, "output_background") != NULL &&
-        config_setting_length(config_lookup(conf, "output_background")) > 0
+        config_lookup(conf, "output_background") != NULL && (
+            config_setting_length(config_lookup(conf, "output_background")) > 0 ||
+            !config_setting_is_aggregate(config_lookup(conf, "output_background"))
+        )
     )
         parse_string_array(conf, "output_background", &par->type_bg, &par->type_bg_len);
     /* there are this many columns in the output */
-- 
2.43.0


From 54ffa88a313dea3c3efd47d059f5a0de7d96b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:28 +0000
Subject: [PATCH 51/53] fix: coffe-cli refuses numbers of FFTlog points and
 redshift bins it cannot handle

---
 src/parser.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index f832b21..31db0b2 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1395,7 +1395,11 @@ int coffe_parser_init(
     if (par->covariance_integration_method == COFFE_COVARIANCE_INTEGRATION_FFTLOG){
         /* integration method for covariance (only for FFT log) */
         parse_int(conf, "covariance_integration_bins", &par->covariance_integration_bins, COFFE_TRUE);
-        if (par->covariance_integration_bins <= 0){
+        /* the 2D FFTlog only works with an even number of points */
+        if (
+            par->covariance_integration_bins < 8 ||
+            par->covariance_integration_bins % 2
+        ){
             print_error_verbose(PROG_VALUE_ERROR, "covariance_integration_bins");
             exit(EXIT_FAILURE);
         }
@@ -1609,7 +1613,11 @@ int coffe_parser_init(
             exit(EXIT_FAILURE);
         }
         for (size_t i = 0; i < par->deltaz_len; ++i)
-            parse_range_check("deltaz", &par->deltaz[i], 1, 0, par->z_mean[i]);
+            /* both ends of the bin must be in the range of the background */
+            parse_range_check(
+                "deltaz", &par->deltaz[i], 1,
+                0, fmin(par->z_mean[i], 15 - par->z_mean[i])
+            );
     }
 
     if (par->output_type == COVARIANCE_AVERAGE_MULTIPOLES){
-- 
2.43.0


From a359f794d3b9643ce29b09ee63fc9b19030e5060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:57 +0000
Subject: [PATCH 52/53] fix: covariances at redshifts at which a used galaxy
 bias is not known are refused

---
 python/coffe/coffe.pyx | 19 +++++++++++++++++++
 src/covariance.c       | 12 ++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index b9cdd4f..2ae6a8f 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1178,6 +1178,19 @@ cdef class Coffe:
             )
 
 
+    def _check_covariance_biases(self, redshifts):
+        # the galaxy biases which are used must be known at the redshifts
+        if not self.has_density:
+            return
+        biases = [
+            self.galaxy_bias1, self.galaxy_bias2,
+            self.galaxy_bias3, self.galaxy_bias4,
+        ]
+        for z in redshifts:
+            for population in self.covariance_populations:
+                biases[population - 1](z)
+
+
     def _check_contributions(self):
         if not any(
             [
@@ -3637,6 +3650,8 @@ cdef class Coffe:
         except ValueError as err:
             raise ValueError from err
 
+        self._check_covariance_biases(self.z_mean)
+
         temp = self._parameters.output_type
         self._parameters.output_type = ccoffe.COVARIANCE_MULTIPOLES
         if not self._covariance_multipoles.size or recompute:
@@ -3691,6 +3706,10 @@ cdef class Coffe:
         except ValueError as err:
             raise ValueError from err
 
+        self._check_covariance_biases(
+            [(zmin + zmax) / 2 for zmin, zmax in zip(self.z_min, self.z_max)]
+        )
+
         temp = self._parameters.output_type
         self._parameters.output_type = ccoffe.COVARIANCE_AVERAGE_MULTIPOLES
         if not self._average_covariance_multipoles.size or recompute:
diff --git a/src/covariance.c b/src/covariance.c
index 6ae5332..2126075 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -18,6 +18,7 @@
 
 #include <math.h>
 #include <time.h>
+#include <gsl/gsl_math.h>
 #include <gsl/gsl_sf_bessel.h>
 #include <gsl/gsl_sf_coupling.h>
 #include <gsl/gsl_sf_expint.h>
@@ -877,6 +878,17 @@ int coffe_covariance_init(
 
             const double galaxy_bias[] = {galaxy_bias1, galaxy_bias2, galaxy_bias3, galaxy_bias4};
 
+            /* the biases which are used must be known at this redshift */
+            if (
+                !gsl_finite(galaxy_bias[par->covariance_pop1 - 1]) ||
+                !gsl_finite(galaxy_bias[par->covariance_pop2 - 1]) ||
+                !gsl_finite(galaxy_bias[par->covariance_pop3 - 1]) ||
+                !gsl_finite(galaxy_bias[par->covariance_pop4 - 1])
+            ){
+                fprintf(stderr, "ERROR: the galaxy bias is not known at z = %e.\n", z_mean);
+                exit(EXIT_FAILURE);
+            }
+
             /* set growth rate to nonzero only if there's an rsd contribution */
             if (par->correlation_contrib.rsd)
                 growth_rate = coffe_interp_spline(&bg->f, z_mean);
-- 
2.43.0


From 4b42cecfeba5baa42977e74dcdcba7419eaa0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:39 +0000
Subject: [PATCH 53/53] fix: separations outside of the range of the 2D FFTlog
 are refused

---
 python/coffe/coffe.pyx | 19 ++++++++++++++++---
 src/covariance.c       | 12 ++++++++++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2ae6a8f..b77b1f3 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1178,7 +1178,20 @@ cdef class Coffe:
             )
 
 
-    def _check_covariance_biases(self, redshifts):
+    def _check_covariance(self, redshifts):
+        # the 2D FFTlog only covers a range of separations, which depends on the one of k
+        if self.covariance_integration_method == 'fftlog':
+            sampling = self.covariance_integration_sampling
+            smallest = 1 / (self.k_min * (self.k_max / self.k_min)**((sampling - 1) / sampling))
+            largest = 1 / self.k_min
+            if any(
+                not smallest * (1 + 1e-12) < sep < largest * (1 - 1e-12)
+                for sep in self.sep
+            ):
+                raise ValueError(
+                    f'With the method `fftlog`, separations must be in the range ({smallest}, {largest})'
+                )
+
         # the galaxy biases which are used must be known at the redshifts
         if not self.has_density:
             return
@@ -3650,7 +3663,7 @@ cdef class Coffe:
         except ValueError as err:
             raise ValueError from err
 
-        self._check_covariance_biases(self.z_mean)
+        self._check_covariance(self.z_mean)
 
         temp = self._parameters.output_type
         self._parameters.output_type = ccoffe.COVARIANCE_MULTIPOLES
@@ -3706,7 +3719,7 @@ cdef class Coffe:
         except ValueError as err:
             raise ValueError from err
 
-        self._check_covariance_biases(
+        self._check_covariance(
             [(zmin + zmax) / 2 for zmin, zmax in zip(self.z_min, self.z_max)]
         )
 
diff --git a/src/covariance.c b/src/covariance.c
index 2126075..2277946 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -438,6 +438,18 @@ static int covariance_integrate_fftlog(
         r1, r2, result_pk
     );
 
+    /* the result is only known in a range of separations, which depends on the one of k */
+    for (size_t m = 0; m < npixels_max; ++m){
+        if (separations[m] < r1[0] || separations[m] > r1[sampling_points - 1]){
+            fprintf(
+                stderr,
+                "ERROR: separation %e is outside of the range [%e, %e] of the 2D FFTlog.\n",
+                separations[m], r1[0], r1[sampling_points - 1]
+            );
+            exit(EXIT_FAILURE);
+        }
+    }
+
     /* we don't need x_sampled and y_sampled anymore */
     free(k_sampled);
     for (size_t i = 0; i < sampling_points; ++i)
-- 
2.43.0

