From 94dd26dce554b9514b6e98a2b45f44d5e1ec6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 01/78] fix: tdl indexed access reads past a one-element delay
 line

---
 src/tdl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdl.cpp b/src/tdl.cpp
index fda5ca5..dbe4221 100644
--- a/src/tdl.cpp
+++ b/src/tdl.cpp
@@ -54,7 +54,7 @@ real_t tdl::getRecent( void ) const noexcept
 real_t tdl::getAtIndex( const size_t i ) const noexcept
 {
     /*cstat -MISRAC++2008-5-0-3*/
-    return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+    return ( ( head + i ) > rd ) ? rd[ itemCount - i ]
                                                       : *( rd - i );
     /*cstat +MISRAC++2008-5-0-3*/
 }
@@ -71,7 +71,7 @@ const real_t& tdl::operator[]( int index ) noexcept
     /*cstat -MISRAC++2008-6-6-5*/
     if ( ( index >= 0 ) && ( i < itemCount ) ) {
         /*cstat -MISRAC++2008-5-0-3*/
-        return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+        return ( ( head + i ) > rd ) ? rd[ itemCount - i ]
                                                           : *( rd - i );
         /*cstat +MISRAC++2008-5-0-3*/
     }
-- 
2.43.0


From b734d1a82714433339baf04289819dfc10c97d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 02/78] fix: smootherMWM1::setup validates the given window
 size

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 4a39430..fc2e21f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -87,7 +87,7 @@ bool smootherMWM1::setup( real_t *window,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) ) {
+    if ( ( nullptr != window ) && ( w_size > 0U ) ) {
         w = window;
         wsize = w_size;
         retValue = reset();
-- 
2.43.0


From adcc2a0ab9255c292b7d1358e65565e4b4b2a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 03/78] fix: smootherMOR2 returns the filtered sample

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index fc2e21f..7cf053f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -210,7 +210,7 @@ real_t smootherMOR2::smooth( const real_t x )
     m = sum/wsize;
     insertSample( xx );
 
-    return x;
+    return xx;
 }
 /*============================================================================*/
 bool smootherGMWF::setup( const real_t sg,
-- 
2.43.0


From 4c9afa398e5091ef16912ad02cfa6677d6fee79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 04/78] fix: smootherGMWF::setup rejects a null kernel

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 7cf053f..5cc679e 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -222,7 +222,7 @@ bool smootherGMWF::setup( const real_t sg,
     bool retValue = false;
     const size_t ws = wk_size;
     /*cstat -CERT-FLP36-C*/
-    if ( ( nullptr != window ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != kernel ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
         real_t r, sum = 0.0_re;
         size_t i;
         real_t l, center;
-- 
2.43.0


From 8e1652b511e9ec2fc754518896d6dc6285609f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 05/78] fix: smootherALNF accepts a zero momentum, rejects null
 weights and uses the supplied momentum array

---
 src/smoother.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 5cc679e..21380e8 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m > 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != weights ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
@@ -403,11 +403,9 @@ real_t smootherALNF::smooth( const real_t x )
     }
     xe = discreteSystem::updateFIR( xx, n, x, w );
     if ( nullptr != w_1 ) {
-        real_t * const ww_1 = &w[ n ];
-
         for ( size_t i = 0U ; i < n ; ++i ) {
             const real_t w0 = w[ i ];
-            const real_t w1 = ww_1[ i ];
+            const real_t w1 = w_1[ i ];
 
             w[ i ] += ( alpha*( x - xe )*xx[ i ] ) + ( mu*( w0 - w1 ) );
             w_1[ i ] = w0;
-- 
2.43.0


From 6be0fa41be8d376b3f5766127d8fc5eae251834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 06/78] fix: smootherKLMN restores the initial error covariance
 on reset

---
 src/include/smoother.hpp | 1 +
 src/smoother.cpp         | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/include/smoother.hpp b/src/include/smoother.hpp
index d683277..10d13aa 100644
--- a/src/include/smoother.hpp
+++ b/src/include/smoother.hpp
@@ -400,6 +400,7 @@ namespace qlibs {
             real_t q{ 100.0_re };  /* process(predict) noise covariance */
             real_t r{ 0.9_re };  /* measure noise covariance */
             real_t p{ 100.0_re };  /* estimated error covariance */
+            real_t p0{ 100.0_re };  /* initial estimated error covariance */
             real_t gain;
             /*! @endcond  */
         public:
diff --git a/src/smoother.cpp b/src/smoother.cpp
index 21380e8..90e9793 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -300,6 +300,7 @@ bool smootherKLMN::setup( const real_t processNoiseCov,
 
     if ( ( processNoiseCov > 0.0_re ) && ( measureNoiseCov > 0.0_re ) && ( estErrorCov > 0.0_re ) ) {
         p = estErrorCov;
+        p0 = estErrorCov;
         q = processNoiseCov;
         r = measureNoiseCov;
         A = 1.0_re;
@@ -316,6 +317,7 @@ real_t smootherKLMN::smooth( const real_t x )
 
     if ( init ) {
         xS = x;
+        p = p0;
         init = false;
     }
     /* Predict */
-- 
2.43.0


From f6c2d12c47dc294fe4f62091e17eb8cf22e336a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 07/78] fix: pidController::setup validates the given time step

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index d38fdef..b25ec87 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -14,7 +14,7 @@ bool pidController::setup( const real_t kc,
 {
     bool retValue = false;
 
-    if ( dt > 0.0_re ) {
+    if ( dT > 0.0_re ) {
         dt = dT;
         isInitialized = true;
         (void)setDerivativeFilter( 0.98_re );
-- 
2.43.0


From 0bdb8d3ebb6ddd39eec8ef7b17dd408bc7d39ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 08/78] fix: discreteSystem::setup normalizes each polynomial
 with its own length

---
 src/ltisys.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index bdfc3c1..234e5c8 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -133,7 +133,7 @@ bool discreteSystem::setup( real_t *num,
 {
     bool retValue = false;
 
-    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) ) {
+    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) && ( n_a > 0U ) ) {
         b = num;
         na = n_a - 1U;
         nb = n_b;
@@ -141,7 +141,7 @@ bool discreteSystem::setup( real_t *num,
         xd = x;
         a = &den[ 1 ];
         type = LTISYS_TYPE_DISCRETE;
-        normalizeTransferFunction( num, den, n_a, n_b );
+        normalizeTransferFunction( num, den, n_b, n_a );
         (void)setInitStates();
         retValue = true;
     }
-- 
2.43.0


From 0ec8f69cc363ce862ad70d4717d3e5d9840a32f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 09/78] fix: discreteSystem::update does not read past the
 numerator when the denominator is longer

---
 src/ltisys.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 234e5c8..e18d4b0 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -157,7 +157,17 @@ real_t discreteSystem::update( const real_t u )
     for ( size_t i = 0 ; i < na ; ++i ) {
         v -= a[ i ]*xd[ i ];
     }
-    return updateFIR( xd, n, v, b );
+    real_t y = b[ 0 ]*v;
+
+    for ( size_t i = ( n - 1U ) ; i >= 1U ; --i ) {
+        xd[ i ] = xd[ i - 1U ];
+        if ( i < nb ) {
+            y += b[ i ]*xd[ i ];
+        }
+    }
+    xd[ 0 ] = v;
+
+    return y;
 }
 /*============================================================================*/
 bool continuousSystem::setup( real_t *num,
-- 
2.43.0


From 84371db456ae92a4607113221a80b23a81f9fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 10/78] fix: ltisys output is unlimited by default in both
 directions

---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index ee63527..d4451e7 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -189,7 +189,7 @@ namespace qlibs {
             size_t na{ 0U };
             size_t nb{ 0U };
             real_t b0{ 0.0_re };
-            real_t min{ REAL_MIN };
+            real_t min{ -REAL_MAX };
             real_t max{ REAL_MAX };
             void normalizeTransferFunction( real_t *num,
                                             real_t *den,
-- 
2.43.0


From b2d0dbd87c7139e6e100b52fa041a78b9b05edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 11/78] fix: continuousSystem::setInitStates uses one initial
 value per state

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index e18d4b0..deebe1c 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -202,7 +202,7 @@ bool continuousSystem::setInitStates( const real_t *xi )
     if ( isInitialized() ) {
         if ( nullptr != xi ) {
             for ( size_t i = 0U; i < n ; ++i ) {
-                xc[ i ].init( xi[ 0 ], xi[ 0 ], xi[ 0 ] );
+                xc[ i ].init( xi[ i ], xi[ i ], xi[ i ] );
             }
         }
         else {
-- 
2.43.0


From 916e1906cb4716b78c83da5a506f013171084678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 12/78] fix: continuousSystem output includes the direct
 feed-through term

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index deebe1c..f8e6ad1 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -241,7 +241,7 @@ real_t continuousSystem::update( const real_t u )
         /*compute the remaining part of the output*/
     }
     /*get the output of the system*/
-    y += ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ];
+    y += ( ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ] ) + ( b0*u );
 
     return y;
 }
-- 
2.43.0


From c3bbd7a9a7b80c0a047bf5062e927a2b74cc1acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 13/78] fix: ltisys::setDelay rejects an empty delay window

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index f8e6ad1..96e5728 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -40,7 +40,7 @@ bool ltisys::setDelay( real_t * const w,
 {
     bool retValue = false;
 
-    if ( isInitialized() ) {
+    if ( isInitialized() && ( nullptr != w ) && ( nD > 0U ) ) {
         tdl::setup( w, nD, initVal );
         retValue = true;
     }
-- 
2.43.0


From 7d82e419e5276ced193a8b4a95d561979105e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:39 +0000
Subject: [PATCH 14/78] fix: pidController derivative action uses its own
 history instead of the integrator's

---
 src/include/pid.hpp | 11 +++++++++++
 src/pid.cpp         |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/include/pid.hpp b/src/include/pid.hpp
index b661adc..9802b26 100644
--- a/src/include/pid.hpp
+++ b/src/include/pid.hpp
@@ -143,6 +143,7 @@ namespace qlibs {
             real_t alpha, gamma; /*MRAC additive controller parameters*/
             nState m_state; /*MRAC additive controller state*/
             nState b_state; /*Bumpless-transfer state*/
+            nState d_state; /*Derivative action state*/
             pidAutoTuning *adapt{ nullptr };
             pidMode mode{ pidMode::PID_AUTOMATIC };
             pidDirection dir{ pidDirection::PID_FORWARD };
@@ -157,6 +158,16 @@ namespace qlibs {
             virtual ~pidController() {}
             pidController() = default;
 
+            /**
+            * @brief Set the derivation method for the derivative action.
+            * @param[in] dm The desired derivation method.
+            * @return none.
+            */
+            inline void setDerivationMethod( derivationMethod dm ) noexcept
+            {
+                d_state.setDerivationMethod( dm );
+            }
+
             /**
             * @brief Setup and initialize the PID controller instance.
             * @param[in] kc Proportional Gain.
diff --git a/src/pid.cpp b/src/pid.cpp
index b25ec87..c9b7758 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -219,6 +219,7 @@ bool pidController::reset( void ) noexcept
         init(); //internal controller state
         m_state.init();
         b_state.init();
+        d_state.init();
         D = 0.0_re;
         u1 = 0.0_re;
         m = 0.0_re;
@@ -285,7 +286,7 @@ real_t pidController::control( const real_t w,
             kd = ( kd > 0.0_re ) ? -kd : kd;
         }
         e = error( w, y );
-        de = derive( error( w, y, c ) , dt, false );
+        de = d_state.derive( error( w, y, c ) , dt );
         ie = integrate( e + u1 , dt );
         D = de + beta*( D - de ); /*derivative filtering*/
         v  = ( kc*error( w, y, b ) ) + ( ki*ie ) + ( kd*D ); /*compute PID action*/
-- 
2.43.0


From be9926df7348a0ce6e48aacb0aa4d504a5a83ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:39 +0000
Subject: [PATCH 15/78] fix: pidAutoTuning stays enabled indefinitely when
 requested

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index c9b7758..a32dd78 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -357,7 +357,7 @@ bool pidAutoTuning::step( const real_t u,
     /*cstat +MISRAC++2008-5-14-1*/
         k = gain + ( mu*( k - gain ) );
         tao = timeConstant + ( mu*( tao - timeConstant ) );
-        if ( ( 0UL == --it ) && ( pidAutoTuning::UNDEFINED != it ) ) {
+        if ( ( pidAutoTuning::UNDEFINED != it ) && ( 0UL == --it ) ) {
             ready = true;
         }
     }
-- 
2.43.0


From d0f1382142290c8e86b05437003ed0248d016389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:47 +0000
Subject: [PATCH 16/78] fix: interp1 sine interpolation uses the interval that
 contains the point

---
 src/interp1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index a40ecf6..994b605 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -177,6 +177,7 @@ real_t interp1::sine( const real_t x,
                     const real_t y1 = ty[ i];
                     const real_t w = 0.5_re - 0.5_re*ffmath::cos( ffmath::FFP_PI*( x - x0 )/( x1 - x0 ) );
                     y = y0 + w*( y1 - y0 );
+                    break;
                 }
             }
         }
-- 
2.43.0


From bdab9f86ac08ac9a8bba79f15227599a63a93f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:47 +0000
Subject: [PATCH 17/78] fix: interp1 cubic interpolation does not read before
 the table in its first interval

---
 src/interp1.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 994b605..b6183ce 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -233,8 +233,9 @@ real_t interp1::cubic( const real_t x,
                     const real_t t = ( x - x0 )/h;
                     const real_t t2 = t*t;
                     const real_t t3 = t2*t;
+                    const real_t m0 = ( i >= 2U ) ? ( y0 - ty[ i - 2U ] ) : ( y1 - y0 );
                     y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                        ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ i - 2U ] ) +
+                        ( t3 - 2.0_re*t2 + t )*h*m0 +
                         ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
                         ( t3 - t2 )*h*( y1 - y0 );
                     break;
-- 
2.43.0


From 99c51a3742313c1459fcce108c8d2b949ce6f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:47 +0000
Subject: [PATCH 18/78] fix: interp1 next-neighbor lookup stays inside the
 table for unordered inputs

---
 src/interp1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index b6183ce..9a4d1e3 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -36,7 +36,7 @@ real_t interp1::next( const real_t x,
     real_t y = ffmath::getNan();
 
     if ( ( tableSize >= 2U ) && ( nullptr != tx ) && ( nullptr != ty ) ) {
-        size_t nearestIndex = tableSize - 1U;
+        size_t nearestIndex = tableSize - 2U;
 
         for ( size_t i = 0U ; i < tableSize - 1U ; ++i ) {
             if ( x < tx[ i + 1U ] ) {
-- 
2.43.0


From 163132e65ee4ac12db1c1ec98567a6d87e235efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:53 +0000
Subject: [PATCH 19/78] fix: interp1 constrained spline pairs each second
 derivative with its own node

---
 src/interp1.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 9a4d1e3..33ba185 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -371,10 +371,10 @@ real_t interp1::cSpline( const real_t x,
             y = ty[ i + 1U ];
         }
         else {
-            const real_t x0 = tx[ i ];
-            const real_t x1 = tx[ i + 1U ];
-            const real_t y0 = ty[ i ];
-            const real_t y1 = ty[ i + 1U ];
+            const real_t x0 = tx[ i + 1U ];
+            const real_t x1 = tx[ i ];
+            const real_t y0 = ty[ i + 1U ];
+            const real_t y1 = ty[ i ];
             const real_t fd2i_xl1 = leftSecondDerivate( tx, ty, tableSize - 1U, i + 1U );
             const real_t fd2i_x = rightSecondDerivate( tx, ty, tableSize - 1U, i + 1U );
             const real_t x0_x1 = x0 - x1;
-- 
2.43.0


From 8454cd560e25ec57cc5980dffc632526870805a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:33 +0000
Subject: [PATCH 20/78] fix: bitfield rejects bit indexes outside the field

---
 src/bitfield.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index ae846b5..1629fbb 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -49,7 +49,7 @@ bool bitfield::setBit( const size_t index ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         set( index );
         retValue = true;
     }
@@ -61,7 +61,7 @@ bool bitfield::clearBit( const size_t index ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         clear( index );
         retValue = true;
     }
@@ -73,7 +73,7 @@ bool bitfield::toggleBit( const size_t index ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         toggle( index );
         retValue = true;
     }
@@ -85,7 +85,7 @@ bool bitfield::readBit( const size_t index ) const noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         retValue = 0U != get( index );
     }
 
@@ -97,7 +97,7 @@ bool bitfield::writeBit( const size_t index,
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         if ( value ) {
             set( index );
         }
@@ -115,7 +115,7 @@ uint32_t bitfield::readUINTn( const size_t index,
 {
     uint32_t retValue = 0U;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( index < size ) && ( xBits <= 32U ) ) {
         if ( 1U == xBits ) {
             retValue = static_cast<uint32_t>( readBit( index ) );
         }
@@ -137,7 +137,7 @@ bool bitfield::writeUINTn( const size_t index,
 {
     bool retValue = false;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( index < size ) && ( xBits <= 32U ) ) {
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
@@ -164,7 +164,7 @@ float bitfield::readFloat( const size_t index ) const noexcept
 {
     float retValue = 0.0F;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         uint32_t rval;
 
         rval = read_uint32( index );
@@ -179,7 +179,7 @@ bool bitfield::writeFloat( const size_t index,
 {
     bool retValue = false;
 
-    if ( nullptr != field ) {
+    if ( ( nullptr != field ) && ( index < size ) ) {
         uint32_t fval = 0U;
 
         (void)memcpy( &fval, &value, sizeof(float) );
-- 
2.43.0


From fdcaa7125282632f8453a1b0994104116da9e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:33 +0000
Subject: [PATCH 21/78] fix: bitfield only spans the complete slots of the area

---
 src/bitfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index 1629fbb..3a4477f 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -10,12 +10,12 @@ bool bitfield::setup( void * const area,
 {
     bool retValue = false;
 
-    if ( ( nullptr != area ) && ( area_size > 0U ) ) {
+    if ( ( nullptr != area ) && ( area_size >= sizeof(uint32_t) ) ) {
         /*cstat -CERT-EXP36-C_b*/
         field = static_cast<uint32_t *>( area );
         /*cstat +CERT-EXP36-C_b*/
-        size = area_size*8U;
         nSlots = area_size/sizeof(uint32_t);
+        size = nSlots*LBit;
         retValue = true;
     }
 
-- 
2.43.0


From 36629ead0fe38d1ee33640027433d990818dd871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:33 +0000
Subject: [PATCH 22/78] fix: bitfield zero-width accesses do not shift by the
 full word

---
 src/bitfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index 3a4477f..ff16da8 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -115,7 +115,7 @@ uint32_t bitfield::readUINTn( const size_t index,
 {
     uint32_t retValue = 0U;
 
-    if ( ( nullptr != field ) && ( index < size ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( index < size ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         if ( 1U == xBits ) {
             retValue = static_cast<uint32_t>( readBit( index ) );
         }
@@ -137,7 +137,7 @@ bool bitfield::writeUINTn( const size_t index,
 {
     bool retValue = false;
 
-    if ( ( nullptr != field ) && ( index < size ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( index < size ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
-- 
2.43.0


From 401b0a206121e756b120cb308e59c3b7c65cd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:31 +0000
Subject: [PATCH 23/78] fix: fp16 sqrt returns zero for zero and overflow for
 negative arguments

---
 src/fp16.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7a42099..f8a0371 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -311,9 +311,15 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
+        if ( ( flag_rounding ) && ( x > retValue ) ) {
+            ++retValue;
+        }
     }
-    if ( ( flag_rounding ) && ( x > retValue ) ) {
-        ++retValue;
+    else if ( 0 == x ) {
+        retValue = 0;
+    }
+    else {
+        /*nothing to do: overflow*/
     }
 
     return static_cast<fp16Raw_t>( retValue );
-- 
2.43.0


From ab5d39021841c85b9c0527f8fb8ebfb0499bf81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:31 +0000
Subject: [PATCH 24/78] fix: fp16 sinh of zero is zero

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index f8a0371..aef2efd 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -648,7 +648,7 @@ fp16Raw_t fp16::sinh( fp16Raw_t x ) noexcept
     fp16Raw_t epx, enx;
 
     if ( 0 == x ) {
-        retValue = one;
+        retValue = 0;
     }
     else if ( x >= exp_max ) {
         retValue = Max;
-- 
2.43.0


From e1ccc96a3df5529f729a975b8213324a625decc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:31 +0000
Subject: [PATCH 25/78] fix: fp16 rounding returns the nearest integral value

---
 src/include/fp16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index 04de4ee..82e7330 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -322,7 +322,7 @@ namespace qlibs {
             */
             static inline fp16 rounding( const fp16 &x ) noexcept
             {
-                return fp16( { x.raw() + one } );
+                return floor( fp16( { add( x.raw(), one_half ) } ) );
             }
 
             /**
-- 
2.43.0


From da2221bb6ded85c6e9b7194a1f5210427a9b9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:31 +0000
Subject: [PATCH 26/78] fix: fp16 absolute value, negation and ceil handle the
 extreme values

---
 src/fp16.cpp         | 4 ++--
 src/include/fp16.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index aef2efd..a6b9f95 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -250,7 +250,7 @@ fp16Raw_t fp16::absolute( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue;
 
-    if ( x == Min ) {
+    if ( x == overflow ) {
         retValue = overflow;
     }
     else {
@@ -265,7 +265,7 @@ fp16Raw_t fp16::ceil( fp16Raw_t x ) noexcept
     const fp16Raw_t i = x & static_cast<fp16Raw_t>( integer_mask );
     const fp16Raw_t f = x & static_cast<fp16Raw_t>( fraction_mask );
 
-    return ( 0 != f ) ? i + one : i;
+    return ( 0 != f ) ? add( i, one ) : i;
 }
 /*============================================================================*/
 fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index 82e7330..7415997 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -149,7 +149,7 @@ namespace qlibs {
             }
             inline fp16 operator-() const noexcept
             {
-                return fp16( { -value } );
+                return fp16( { sub( 0, value ) } );
             }
             inline fp16& operator-=( const fp16 &other ) noexcept
             {
-- 
2.43.0


From 0619cbccfabd17e9a4bb10cca79d44221f7e90ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:36 +0000
Subject: [PATCH 27/78] fix: fp16 asin and acos at the ends of their domain

---
 src/fp16.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index a6b9f95..181fb25 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -605,7 +605,13 @@ fp16Raw_t fp16::asin( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue = 0;
 
-    if ( ( x <= one ) && ( x >= -one ) ) {
+    if ( one == x ) {
+        retValue = f_pi_2;
+    }
+    else if ( -one == x ) {
+        retValue = -f_pi_2;
+    }
+    else if ( ( x < one ) && ( x > -one ) ) {
         retValue = one - mul( x, x );
         retValue = div( x, sqrt( retValue ) );
         retValue = atan( retValue );
-- 
2.43.0


From cff586b9bef90524ca97aa06758c7b05dbcd6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:15 +0000
Subject: [PATCH 28/78] fix: fp16 products and quotients reach the overflow
 marker without signed overflow

---
 src/fp16.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 181fb25..b71223e 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -177,7 +177,7 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
                 --mulH;
             }
             retValue = static_cast<fp16Raw_t>( mulH << 16 ) | static_cast<fp16Raw_t>( mulL >> 16 );
-            retValue += 1;
+            retValue = static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + 1U );
         }
         else {
             retValue = static_cast<fp16Raw_t>( mulH << 16 ) | static_cast<fp16Raw_t>( mulL >> 16 );
@@ -233,7 +233,7 @@ fp16Raw_t fp16::div( const fp16Raw_t x,
 
             retValue = static_cast<fp16Raw_t>( quotient );
             if ( 0U != ( static_cast<uint32_t>( x ^ y ) & overflow_mask ) ) {
-                if ( quotient == static_cast<uint32_t>( Min ) ) {
+                if ( quotient == static_cast<uint32_t>( overflow ) ) {
                     retValue = overflow;
                 }
                 else {
-- 
2.43.0


From 5fdecc43fc32ed8f3afd653b1738bed52216fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:25 +0000
Subject: [PATCH 29/78] fix: fp16 sqrt keeps its remainder unsigned so that
 large arguments are not truncated

---
 src/fp16.cpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index b71223e..79a25c2 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -273,47 +273,46 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
     fp16Raw_t retValue = overflow;
 
     if ( x > 0 ) {
+        uint32_t num = static_cast<uint32_t>( x ), result = 0U;
         uint32_t bit;
         uint8_t n;
 
-        retValue = 0;
-        /*cstat -MISRAC++2008-5-0-3*/
-        bit = ( 0 != ( x & static_cast<fp16Raw_t>( 4293918720 ) ) ) ? 1073741824U : 262144U;
-        /*cstat +MISRAC++2008-5-0-3*/
-        while ( bit > static_cast<uint32_t>( x ) ) {
+        bit = ( 0U != ( num & 0xFFF00000U ) ) ? 1073741824U : 262144U;
+        while ( bit > num ) {
             bit >>= 2U;
         }
 
         for ( n = 0U ; n < 2U ; ++n ) {
             while ( 0U != bit ) {
-                if ( x >= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit ) ) {
-                    x -= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit );
-                    retValue = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( retValue ) >> 1U ) + bit );
+                if ( num >= ( result + bit ) ) {
+                    num -= result + bit;
+                    result = ( result >> 1U ) + bit;
                 }
                 else {
-                    retValue = ( retValue >> 1 );
+                    result >>= 1U;
                 }
                 bit >>= 2U;
             }
 
             if ( 0U == n ) {
-                if ( x > 65535 ) {
-                    x -= retValue;
-                    x = ( x << 16 ) - one_half;
-                    retValue = ( retValue << 16 ) + one_half;
+                if ( num > 65535U ) {
+                    num -= result;
+                    num = ( num << 16U ) - static_cast<uint32_t>( one_half );
+                    result = ( result << 16U ) + static_cast<uint32_t>( one_half );
                 }
                 else {
-                    x <<= 16;
-                    retValue <<= 16;
+                    num <<= 16U;
+                    result <<= 16U;
                 }
                 /*cstat -ATH-shift-bounds -MISRAC++2008-5-8-1 -CERT-INT34-C_b*/
                 bit = 1U << 14U;
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-        if ( ( flag_rounding ) && ( x > retValue ) ) {
-            ++retValue;
+        if ( ( flag_rounding ) && ( num > result ) ) {
+            ++result;
         }
+        retValue = static_cast<fp16Raw_t>( result );
     }
     else if ( 0 == x ) {
         retValue = 0;
-- 
2.43.0


From 79efaa6d4d7f365ad77e3cca02e6ad30a8272662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 30/78] fix: algorithm::sort compares against the pivot value
 when a comparison function is given

---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 372bd5f..7cc450c 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -118,7 +118,7 @@ namespace qlibs {
 
                     for ( int i = start; i < end; ++i ) {
                         if ( nullptr != comp ) {
-                            if ( comp( array[ i ], array[ pivotIndex ] ) ) {
+                            if ( comp( array[ i ], pivotValue ) ) {
                                 algorithm::swap( array[ i ], array[ pivotIndex ] );
                                 ++pivotIndex;
                             }
-- 
2.43.0


From 19e559be41fd8d1d6218d6a6c91254b0fba07b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 31/78] fix: algorithm::rotate to the left handles whole turns
 and the most negative count

---
 src/include/algorithm.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 7cc450c..b191605 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -185,12 +185,14 @@ namespace qlibs {
                 }
                 else {
                     /*cstat -MISRAC++2008-5-0-9*/
-                    r = static_cast<size_t>( -k );
+                    r = static_cast<size_t>( -( k + 1 ) ) + 1U;
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
-                    algorithm::reverse( array, 0U, r - 1U );
-                    algorithm::reverse( array, r, n - 1U );
-                    algorithm::reverse( array, 0U, n - 1U );
+                    if ( r > 0U ) {
+                        algorithm::reverse( array, 0U, r - 1U );
+                        algorithm::reverse( array, r, n - 1U );
+                        algorithm::reverse( array, 0U, n - 1U );
+                    }
                 }
             }
         }
-- 
2.43.0


From b7fa5dd1b4f8d53a6b27cab7da1efa22fd5ae911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 32/78] fix: algorithm::replace and replace_if replace every
 matching element

---
 src/include/algorithm.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index b191605..5255240 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -329,7 +329,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( old_value == array[ i ] ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
@@ -356,7 +355,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
-- 
2.43.0


From 574fcabeef1657ce7e36b84ba5aa059bd16fd94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 33/78] fix: algorithm::find_if returns the first match

---
 src/include/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 5255240..622ccd3 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -413,6 +413,7 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     found = &array[ i ];
+                    break;
                 }
             }
             return found;
-- 
2.43.0


From 378a8ac0bc00f0abad7a31cbd3a13a0f0ddf0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 34/78] fix: mat pre-decrement subtracts one from every element

---
 src/include/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 680733f..f2c6255 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -257,7 +257,7 @@ namespace qlibs {
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        ++m[i][j];
+                        --m[i][j];
                     }
                 }
                 return *this;
-- 
2.43.0


From fbc8fc714db3c7a773a53b33c492b2d00e2b1076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 35/78] fix: mat::normInf walks rows by columns on rectangular
 matrices

---
 src/include/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index f2c6255..117c308 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -470,9 +470,9 @@ namespace qlibs {
                 size_t i,j;
                 real_t maxM =0.0_re, sum = 0.0_re;
 
-                for ( i = 0U ; i < Cols; i++ ) {
+                for ( i = 0U ; i < Rows; i++ ) {
                     sum = 0.0_re;
-                    for ( j = 0U ; j < Rows ; ++j ) {
+                    for ( j = 0U ; j < Cols ; ++j ) {
                         sum += ( m[i][j] < 0.0_re ) ? -m[i][j] : m[i][j];
                     }
                     if ( 0U == i ) {
-- 
2.43.0


From fb672c408b41322dc37e456fda603a5985125806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 36/78] fix: mat built with MAT_MAGIC does not leave its
 elements uninitialized

---
 src/include/mat.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 117c308..cf3ecfb 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -66,9 +66,6 @@ namespace qlibs {
                                 m[i][j] = value;
                             }
                         }
-                        break;
-                    case MAT_MAGIC:
-
                         break;
                     default:
                         for (size_t i = 0; i < Rows; ++i) {
-- 
2.43.0


From f6eac4b10d5084fcf0a464379e5654351a2655b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 37/78] fix: mat compound scalar operators take the scalar by
 value so that it can be an element of the matrix

---
 src/include/mat.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index cf3ecfb..97133ec 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -310,7 +310,7 @@ namespace qlibs {
             }
 
             // Overload the compound multiplication operator (*=) with scalar
-            mat<Rows, Cols>& operator*=(const real_t& scalar) {
+            mat<Rows, Cols>& operator*=(const real_t scalar) {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
                         m[i][j] *= scalar;
@@ -320,7 +320,7 @@ namespace qlibs {
             }
 
             // Overload the compound multiplication operator (*=) with scalar
-            mat<Rows, Cols>& operator/=(const real_t& scalar) {
+            mat<Rows, Cols>& operator/=(const real_t scalar) {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
                         m[i][j] /= scalar;
@@ -330,7 +330,7 @@ namespace qlibs {
             }
 
             // Overload the compound addition operator (+=) with a scalar
-            mat<Rows, Cols>& operator+=(const real_t& scalar)
+            mat<Rows, Cols>& operator+=(const real_t scalar)
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
@@ -341,7 +341,7 @@ namespace qlibs {
             }
 
             // Overload the compound subtraction operator (-=) with a scalar
-            mat<Rows, Cols>& operator-=(const real_t& scalar)
+            mat<Rows, Cols>& operator-=(const real_t scalar)
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-- 
2.43.0


From 49d4c401f3e4f9a5808d37a70047f14ae0b06a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:14 +0000
Subject: [PATCH 38/78] fix: mat::inv exchanges rows when it meets a zero pivot

---
 src/include/mat.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 97133ec..188d528 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -442,6 +442,17 @@ namespace qlibs {
                 mat<Rows,Rows> I( MAT_IDENTITY );
 
                 for ( size_t i = 0; i < Rows; ++i ) {
+                    for ( size_t r = i + 1U; ( 0.0_re == X(i, i) ) && ( r < Rows ); ++r ) {
+                        if ( 0.0_re != X(r, i) ) { // A null pivot requires a row exchange
+                            for ( size_t k = 0; k < Rows; ++k ) {
+                                const real_t tx = X(i, k), ti = I(i, k);
+                                X(i, k) = X(r, k);
+                                X(r, k) = tx;
+                                I(i, k) = I(r, k);
+                                I(r, k) = ti;
+                            }
+                        }
+                    }
                     real_t pivot = X(i, i);
                     // Make the diagonal element 1
                     for ( size_t j = 0; j < Rows; ++j ) {
-- 
2.43.0


From 7ef989453fbc650a0c944e9a2732fd4e637fd46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 39/78] fix: fis linear z-shaped sets decrease from a to b

---
 src/fisCore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index e2c5a5e..c66741a 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -286,7 +286,7 @@ real_t fis::core::LinZMF( const fis::ioBase * const in,
             y = 0.0_re;
         }
         else {
-            y = ( a - x )/( a - b );
+            y = ( b - x )/( b - a );
         }
     }
     else if ( ffmath::isEqual( a, b ) ) {
@@ -412,7 +412,7 @@ real_t fis::core::TLinZMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
 
-    return a - ( ( a - b )*x );
+    return b - ( ( b - a )*x );
 }
 /*============================================================================*/
 real_t fis::core::TRampMF( const ioBase * const in,
-- 
2.43.0


From 98ba1006a7efc09f099eb08a15c9bc9b1bb8bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 40/78] fix: fis triangular and trapezoidal sets keep their
 full membership on vertical edges

---
 src/fisCore.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index c66741a..dbbb136 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -11,23 +11,31 @@ real_t fis::core::TriMF( const fis::ioBase * const in,
                          const real_t *p,
                          const size_t n )
 {
-    real_t a, b, c, tmp;
+    real_t a, b, c, y;
     const real_t x = in[ 0 ].value;
     (void)n;
 
     a = p[ 0 ];
     b = p[ 1 ];
     c = p[ 2 ];
-    tmp = Min( ( x - a )/( b - a ) , ( c - x )/( c - b ) );
+    if ( x < b ) {
+        y = ( x > a ) ? ( x - a )/( b - a ) : 0.0_re;
+    }
+    else if ( x > b ) {
+        y = ( x < c ) ? ( c - x )/( c - b ) : 0.0_re;
+    }
+    else {
+        y = 1.0_re;
+    }
 
-    return Max( tmp , 0.0_re );
+    return y;
 }
 /*============================================================================*/
 real_t fis::core::TrapMF( const fis::ioBase * const in,
                           const real_t *p,
                           const size_t n )
 {
-    real_t a, b, c, d, tmp;
+    real_t a, b, c, d, y;
     const real_t x = in[ 0 ].value;
     (void)n;
 
@@ -35,10 +43,17 @@ real_t fis::core::TrapMF( const fis::ioBase * const in,
     b = p[ 1 ];
     c = p[ 2 ];
     d = p[ 3 ];
-    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( tmp, ( d - x )/( d - c ) ) ;
+    if ( x < b ) {
+        y = ( x > a ) ? ( x - a )/( b - a ) : 0.0_re;
+    }
+    else if ( x > c ) {
+        y = ( x < d ) ? ( d - x )/( d - c ) : 0.0_re;
+    }
+    else {
+        y = 1.0_re;
+    }
 
-    return Max( tmp , 0.0_re );
+    return y;
 }
 /*============================================================================*/
 real_t fis::core::GBellMF( const fis::ioBase * const in,
-- 
2.43.0


From 88f16e17201f22f6144572d0fd5f21d7b157f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 41/78] fix: fis two-sided gaussian sets are flat between their
 centers

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index dbbb136..fd471de 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -96,7 +96,7 @@ real_t fis::core::Gauss2MF( const fis::ioBase * const in,
     c1 = p[ 1 ];
     c2 = p[ 3 ];
     f1 = ( x <= c1 ) ? GaussMF( in , p, n ) : 1.0_re;
-    f2 = ( x <= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
+    f2 = ( x >= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
 
     return f1*f2;
 }
-- 
2.43.0


From cc31e5421393f8f9b05624f18516b92ee4d76491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 42/78] fix: fis Tsukamoto consequents are evaluated at the
 strength of their rule

---
 src/fis.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index d2fdcc3..5c89f0c 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -382,7 +382,13 @@ size_t fis::instance::inferenceConsequent( size_t i ) noexcept
         }
         else { /* Sugeno and Tsukamoto*/
             real_t zi;
-            zi = m.membership( xInput, nInputs );
+            if ( Tsukamoto == xType ) {
+                o.value = wi[ ruleCount ];
+                zi = m.membership( &o );
+            }
+            else {
+                zi = m.membership( xInput, nInputs );
+            }
             o.v[ sum_wz ] += zi*wi[ ruleCount ];
             o.v[ sum_w ] += wi[ ruleCount ];
         }
-- 
2.43.0


From a0a627f91f8002534942cde6bb0b3288cea90a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 43/78] fix: fis Tsukamoto s-shaped and z-shaped consequents
 invert their sets

---
 src/fisCore.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index fd471de..5c59cd5 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -201,22 +201,16 @@ real_t fis::core::TSMF( const fis::ioBase * const in,
                         const real_t *p,
                         const size_t n )
 {
-    real_t diff, a, b, ta, tb, ma, mb;
+    real_t diff, a, b;
     const real_t x = in[ 0 ].value;
     (void)n;
-    fis::ioBase tmp;
 
     a = p[ 0 ]; /*start*/
     b = p[ 1 ]; /*end*/
     diff = b - a;
     diff = 0.5_re*diff*diff;
-    ta = a + ffmath::sqrt( x*diff );
-    tmp.value = ta;
-    ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( -( x - 1.0_re )*diff );
-    tmp.value = tb;
-    mb = SMF( &tmp, p, n );
-    return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
+    return ( x < 0.5_re ) ? a + ffmath::sqrt( x*diff )
+                          : b - ffmath::sqrt( ( 1.0_re - x )*diff );
 }
 /*============================================================================*/
 real_t fis::core::ZMF( const fis::ioBase * const in,
@@ -318,22 +312,16 @@ real_t fis::core::TZMF( const fis::ioBase * const in,
                         const real_t *p,
                         const size_t n )
 {
-    real_t diff, a, b, ta, tb, ma, mb;
+    real_t diff, a, b;
     const real_t x = in[ 0 ].value;
     (void)n;
-    fis::ioBase tmp;
 
     a = p[ 0 ]; /*start*/
     b = p[ 1 ]; /*end*/
     diff = b - a;
     diff = 0.5_re*diff*diff;
-    ta = a + ffmath::sqrt( -( x - 1.0_re )*diff );
-    tmp.value = ta;
-    ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( x*diff );
-    tmp.value = tb;
-    mb = SMF( &tmp, p, n );
-    return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
+    return ( x < 0.5_re ) ? b - ffmath::sqrt( x*diff )
+                          : a + ffmath::sqrt( ( 1.0_re - x )*diff );
 }
 /*============================================================================*/
 real_t fis::core::PiMF( const fis::ioBase * const in,
-- 
2.43.0


From 56879cbadaa699b60ab21a133f8952e952e64f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 44/78] fix: fis Tsukamoto concave consequent inverts its set

---
 src/fisCore.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 5c59cd5..ee40f86 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -368,12 +368,14 @@ real_t fis::core::TConcaveMF( const fis::ioBase * const in,
                               const real_t *p,
                               const size_t n )
 {
+    const real_t x = in[ 0 ].value;
     real_t i, e;
+    (void)n;
 
     i = p[ 0 ];
     e = p[ 1 ];
 
-    return ( ( i - e )/ConcaveMF( in, p, n ) ) + ( 2.0_re*e ) - i;
+    return ( ( i - e )/x ) + ( 2.0_re*e ) - i;
 }
 /*============================================================================*/
 real_t fis::core::SpikeMF( const fis::ioBase * const in,
-- 
2.43.0


From c35d58a2f259d28e9233c70a32d625e374e107b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 45/78] fix: fis smallest of maximum keeps the first maximum

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index ee40f86..2e2e91c 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -626,7 +626,7 @@ real_t fis::core::deFuzzSOM( fis::output * const o,
 
     switch ( stage ) {
         case FIS_DEFUZZ_COMPUTE:
-            if ( o->y >= o->v[ yMax ] ) {
+            if ( o->y > o->v[ yMax ] ) {
                 o->v[ yMax ] = o->y;
                 o->v[ xLargest ] = o->x;
             }
-- 
2.43.0


From b50c4e62362ed55244364b84fef937b66da21e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 46/78] fix: fis rejects tags of inputs, outputs and sets that
 do not exist

---
 src/fis.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 5c89f0c..28be1c9 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -122,7 +122,7 @@ bool fis::instance::setupInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].min = Min;
         xInput[ t ].max = Max;
@@ -139,7 +139,7 @@ bool fis::instance::setupOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         xOutput[ t ].min = Min;
         xOutput[ t ].max = Max;
@@ -172,7 +172,7 @@ bool fis::instance::setInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].value = value;
         /*cstat +CERT-STR34-C*/
@@ -187,7 +187,7 @@ bool fis::instance::getOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xOutput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         value = xOutput[ t ].value;
         /*cstat +CERT-STR34-C*/
@@ -217,7 +217,11 @@ bool fis::instance::setMF( fis::mf *m,
         &TLinSMF, &TLinZMF, &TConcaveMF, &TSigMF, &TSMF, &TZMF, &TRampMF
     };
 
-    if ( ( io >= 0 ) && ( mf >= 0 ) && ( s < FIS_NUM_MFS ) ) {
+    const size_t nio = ( m == inMF ) ? nInputs : nOutputs;
+    const size_t nmf = ( m == inMF ) ? nMFInputs : nMFOutputs;
+
+    if ( ( io >= 0 ) && ( static_cast<size_t>( io ) < nio ) &&
+         ( mf >= 0 ) && ( static_cast<size_t>( mf ) < nmf ) && ( s < FIS_NUM_MFS ) ) {
         /*cstat -CERT-STR34-C*/
         m[ mf ].shape = ( nullptr != customMf ) ? customMf : fShape[ s ];
         m[ mf ].index = static_cast<size_t>( io );
-- 
2.43.0


From d0b512ccf74dbb8e7e7c8a8b560263a615fc86ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 47/78] fix: fis output access by a tag out of range reads the
 last output

---
 src/include/fis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 924e8c7..53cdbe8 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -833,7 +833,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xInput[ nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xOutput[ nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
@@ -1168,7 +1168,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xInput[ sys.nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xOutput[ sys.nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
-- 
2.43.0


From b2ca280187f82daaf4e3469ee3eef74ff873ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 48/78] fix: fis implication only accepts minimum and product

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 28be1c9..a70817d 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -19,7 +19,7 @@ bool fis::instance::setParameter( const fis::parameter p,
             }
             break;
         case fis::parameter::FIS_Implication:
-            if ( x <= fis::paramValue::FIS_PROBOR ) {
+            if ( x <= fis::paramValue::FIS_PROD ) {
                 implicate = method[ x ];
                 retValue = true;
             }
-- 
2.43.0


From fccbf874a8061aad297b83e1928a9612c547360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 49/78] fix: fis setup requires the storage of the rule
 strengths

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index a70817d..6697cf7 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -88,7 +88,7 @@ bool fis::instance::setup( const fis::type t,
          ( nullptr != outputs) && ( no > 0U ) &&
          ( nullptr != mf_inputs) && ( nmi > 0U ) &&
          ( nullptr != mf_outputs) && ( nmo > 0U ) &&
-         ( nullptr != r ) && ( n > 0U )
+         ( nullptr != r ) && ( n > 0U ) && ( nullptr != rWeights )
        ) {
         xType = t;
         xInput = inputs;
-- 
2.43.0


From a50586c1a47cd2958513639a060da541a06309a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 50/78] fix: fis inference rejects rules that refer to inputs,
 outputs or sets that do not exist

---
 src/fis.cpp         | 16 +++++++++++-----
 src/include/fis.hpp |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 6697cf7..53889cd 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -299,15 +299,15 @@ size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
     inIndex = xRules[ i ];
     /*cstat -CERT-INT30-C_a*/
     MFInIndex = xRules[ i + 1U ];
-    connector = xRules[ i + 2U ];
     /*cstat +CERT-INT30-C_a*/
-    op = getFuzzOperator();
-    rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
-
-    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) > nInputs ) ) {
+    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) >= nInputs ) ||
+         !isValidSet( MFInIndex, nMFInputs ) ) {
         i = INFERENCE_ERROR;
     }
     else {
+        connector = xRules[ i + 2U ];
+        op = getFuzzOperator();
+        rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
         if ( ( Q_FIS_AND == connector ) || ( Q_FIS_OR == connector ) ) {
             lastConnector = connector;
             inferenceState = &fis::instance::inferenceAntecedent;
@@ -328,6 +328,12 @@ size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
 size_t fis::instance::inferenceReachEnd( size_t i ) noexcept
 {
     fis::rules connector;
+    const fis::rules outIndex = xRules[ i ];
+
+    if ( ( outIndex < 0 ) || ( static_cast<size_t>( outIndex ) >= nOutputs ) ||
+         !isValidSet( xRules[ i + 1U ], nMFOutputs ) ) {
+        return INFERENCE_ERROR;
+    }
     /*cstat -CERT-INT30-C_a*/
     connector = ( nOutputs > 1U )? xRules[ i + 2U ] : -1;
     /*cstat +CERT-INT30-C_a*/
diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 53cdbe8..0ee9da6 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -538,6 +538,12 @@ namespace qlibs {
                         const real_t h ) noexcept;
             static real_t parseFuzzValue( mf * const mfIO,
                                           rules index ) noexcept;
+            static inline bool isValidSet( const rules index,
+                                           const size_t nSets ) noexcept
+            {
+                const int k = ( index < 0 ) ? -index : index;
+                return ( k > 0 ) && ( static_cast<size_t>( k ) <= nSets );
+            }
             fuzzyOperator getFuzzOperator( void ) noexcept;
             size_t inferenceAntecedent( size_t i ) noexcept;
             size_t inferenceReachEnd( size_t i ) noexcept;
-- 
2.43.0


From 58a7d4cd6d60ce367dd5a07a434e0f73727d705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 51/78] fix: ffmath::rem returns nan for a zero divisor instead
 of a zero dividend

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7bfd6ba..52c5ac2 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -404,7 +404,7 @@ float ffmath::frac( float x )
 float ffmath::rem( float x,
                    float y )
 {
-    return ( classification::FFP_ZERO == classify( x ) ) ? limits::nan()
+    return ( classification::FFP_ZERO == classify( y ) ) ? limits::nan()
                                                          : ( x - ( y*ffmath::trunc( x/y ) ) );
 }
 /*============================================================================*/
-- 
2.43.0


From 067e1c3a2f6d5333043819e451f1a3073ef28128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 52/78] fix: ffmath::sqrt of infinity and of subnormal values

---
 src/ffmath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 52c5ac2..7ad8abd 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -208,11 +208,14 @@ float ffmath::sqrt( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = 0.0F;
     }
+    else if ( !ffmath::isFinite( x ) ) {
+        retVal = x;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         float z = 0.0F;
 
-        y = ( ( y - 0x00800000U ) >> 1U ) + 0x20000000U;
+        y = ( y >> 1U ) + 0x1FC00000U;
         z = bit_cast<float>( y );
         z = 0.5F*( ( x/z ) + z );
         retVal = 0.5F*( ( x/z ) + z );
-- 
2.43.0


From 8cf326d9d02872843d7d03900792f365b6ba1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 53/78] fix: ffmath::rSqrt and recip of infinity are zero

---
 src/ffmath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7ad8abd..fb99087 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -195,7 +195,7 @@ float ffmath::recip( float x )
     y = 0x7EF311C7U - y;
     z = bit_cast<float>( y );
 
-    return z*( 2.0F - ( x*z ) );
+    return ffmath::isInf( x ) ? ffmath::copysign( 0.0F, x ) : z*( 2.0F - ( x*z ) );
 }
 /*============================================================================*/
 float ffmath::sqrt( float x )
@@ -234,6 +234,9 @@ float ffmath::rSqrt( float x )
     else if ( ffmath::classification::FFP_ZERO  == ffmath::classify( x ) ) {
         retVal = limits::infinity();
     }
+    else if ( ffmath::isInf( x ) ) {
+        retVal = 0.0F;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         const float z = 0.5F*x;
-- 
2.43.0


From caf13ecd5d29e3c559f1ecdaea194a625e1bee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 54/78] fix: ffmath::cbrt and rCbrt of negative and infinite
 values

---
 src/ffmath.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index fb99087..735b2d7 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -254,13 +254,14 @@ static float compute_cbrt( float x , bool r )
     float retVal, y = 0.0F, c, d;
     const float k[ 3 ] = { 1.752319676F, 1.2509524245F, 0.5093818292F };
     constexpr float c13 = 1.0F/3.0F;
-    uint32_t i = bit_cast<uint32_t>( x );
+    uint32_t i;
     bool neg = false;
 
     if ( x < 0.0F ) {
         x = -x;
         neg = true;
     }
+    i = bit_cast<uint32_t>( x );
     i = 0x548C2B4BU - ( i/3U );
     y = bit_cast<float>( i );
     c = x*y*y*y;
@@ -275,13 +276,24 @@ static float compute_cbrt( float x , bool r )
 /*============================================================================*/
 float ffmath::cbrt( float x )
 {
-    return compute_cbrt( x, false );
+    return ffmath::isInf( x ) ? x : compute_cbrt( x, false );
 }
 /*============================================================================*/
 float ffmath::rCbrt( float x )
 {
-    return ( ffmath::classification::FFP_ZERO  == ffmath::classify( x ) ) ?
-             limits::infinity() : compute_cbrt( x, true );
+    float retVal;
+
+    if ( ffmath::classification::FFP_ZERO  == ffmath::classify( x ) ) {
+        retVal = limits::infinity();
+    }
+    else if ( ffmath::isInf( x ) ) {
+        retVal = ffmath::copysign( 0.0F, x );
+    }
+    else {
+        retVal = compute_cbrt( x, true );
+    }
+
+    return retVal;
 }
 /*============================================================================*/
 float ffmath::rounding( float x )
-- 
2.43.0


From c1de27436107e47bb782b50db979cd05a44b1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 55/78] fix: ffmath::atan of infinity is half of pi

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 735b2d7..3fdb83d 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -517,7 +517,7 @@ float ffmath::atan( float x )
 {
     float abs_x;
 
-    x /= absolute( x ) + 1.0F;
+    x = ffmath::isInf( x ) ? ffmath::copysign( 1.0F, x ) : x/( absolute( x ) + 1.0F );
     abs_x = absolute( x );
 
     return x*( ( abs_x*( ( -1.45667498914F*abs_x ) + 2.18501248371F ) ) + 0.842458832225F );
-- 
2.43.0


From 95a2d1a8c645ea7f61cf56734499fb6516debcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 56/78] fix: ffmath::exp2 overflows only at 128 and passes nan
 through

---
 src/ffmath.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 3fdb83d..8e3111d 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -539,10 +539,13 @@ float ffmath::exp2( float x )
 {
     float retVal;
 
-    if ( x <= -126.0F ) {
+    if ( ffmath::isNan( x ) ) {
+        retVal = x;
+    }
+    else if ( x <= -126.0F ) {
         retVal = 0.0F;
     }
-    else if ( x > 128.0F ) {
+    else if ( x >= 128.0F ) {
         retVal = limits::infinity();
     }
     else {
@@ -550,6 +553,7 @@ float ffmath::exp2( float x )
         int32_t ep_i;
 
         ip = ffmath::floor( x + 0.5F );
+        ip = ( ip > 127.0F ) ? 127.0F : ip;
         fp = x - ip;
         /*cstat -CERT-FLP34-C -MISRAC++2008-5-0-21*/
         ep_i = ( static_cast<int32_t>( ip ) + 127 ) << 23;
-- 
2.43.0


From 3b19a4112d747ab71cbce1d2514c648ac3d26225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 57/78] fix: ffmath::log2 passes infinity and nan through

---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 8e3111d..124a880 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -581,6 +581,9 @@ float ffmath::log2( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = -limits::infinity();
     }
+    else if ( !ffmath::isFinite( x ) ) {
+        retVal = x;
+    }
     else {
         float z, px;
         int32_t ip, fp;
-- 
2.43.0


From 24572bb4b28d7f66132f8225a268d5d8cefdeff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 58/78] fix: ffmath::pow raised to zero is one

---
 src/ffmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 124a880..3bc53cf 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -654,7 +654,8 @@ float ffmath::log10( float x )
 float ffmath::pow( float b,
                    float e )
 {
-    return ffmath::exp2( e*ffmath::log2( b ) );
+    return ( ffmath::classification::FFP_ZERO == ffmath::classify( e ) ) ? 1.0F
+                                                                        : ffmath::exp2( e*ffmath::log2( b ) );
 }
 /*============================================================================*/
 float ffmath::sinh( float x )
-- 
2.43.0


From a17fc74b4a3ef5f51392873e8a0bacb035b8d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 59/78] fix: ffmath::tanh of large negative values is -1

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 3bc53cf..8041326 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -676,8 +676,8 @@ float ffmath::cosh( float x )
 /*============================================================================*/
 float ffmath::tanh( float x )
 {
-    x = ffmath::exp( -2.0F*x );
-    return ( 1.0F - x )/( 1.0F + x );
+    const float y = ffmath::exp( -2.0F*absolute( x ) );
+    return ffmath::copysign( ( 1.0F - y )/( 1.0F + y ), x );
 }
 /*============================================================================*/
 float ffmath::asinh( float x )
-- 
2.43.0


From f6cc1290c5be2129382167228cc10e129d72dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 60/78] fix: ffmath::asinh and acosh of large values

---
 src/ffmath.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 8041326..efaee9f 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -682,13 +682,28 @@ float ffmath::tanh( float x )
 /*============================================================================*/
 float ffmath::asinh( float x )
 {
-    return ffmath::log( x + ffmath::sqrt( ( x*x ) + 1.0F ) );
+    const float y = absolute( x );
+    /*( y*y ) overflows for large values, where asinh(y) = log(2y)*/
+    const float z = ( y > 1.0E+9F ) ? ( ffmath::log( y ) + ffmath::FFP_LN2 )
+                                    : ffmath::log( y + ffmath::sqrt( ( y*y ) + 1.0F ) );
+    return ffmath::copysign( z, x );
 }
 /*============================================================================*/
 float ffmath::acosh( float x )
 {
-    return ( x < 1.0F ) ? limits::nan()
-                        : ffmath::log( x + ffmath::sqrt( ( x*x ) - 1.0F ) );
+    float y;
+
+    if ( x < 1.0F ) {
+        y = limits::nan();
+    }
+    else if ( x > 1.0E+9F ) { /*( x*x ) overflows for large values, where acosh(x) = log(2x)*/
+        y = ffmath::log( x ) + ffmath::FFP_LN2;
+    }
+    else {
+        y = ffmath::log( x + ffmath::sqrt( ( x*x ) - 1.0F ) );
+    }
+
+    return y;
 }
 /*============================================================================*/
 float ffmath::atanh( float x )
-- 
2.43.0


From fef56e0452fe83cf19681db59baffe95571f6ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 61/78] fix: ffmath wrapping functions map positive multiples
 to the upper end of the interval

---
 src/ffmath.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index efaee9f..5d4d7d2 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -713,22 +713,26 @@ float ffmath::atanh( float x )
 /*============================================================================*/
 float ffmath::wrapToPi( float x )
 {
-    return ffmath::mod( x + ffmath::FFP_PI, ffmath::FFP_2PI ) - ffmath::FFP_PI;
+    const float y = ffmath::mod( x + ffmath::FFP_PI, ffmath::FFP_2PI );
+    return ( ( x > 0.0F ) && ( y <= 0.0F ) ) ? ffmath::FFP_PI : ( y - ffmath::FFP_PI );
 }
 /*============================================================================*/
 float ffmath::wrapTo2Pi( float x )
 {
-    return ffmath::mod( x, ffmath::FFP_2PI );
+    const float y = ffmath::mod( x, ffmath::FFP_2PI );
+    return ( ( x > 0.0F ) && ( y <= 0.0F ) ) ? ffmath::FFP_2PI : y;
 }
 /*============================================================================*/
 float ffmath::wrapTo180( float x )
 {
-    return ffmath::mod( x + 180.0F, 360.0F ) - 180.0F;
+    const float y = ffmath::mod( x + 180.0F, 360.0F );
+    return ( ( x > 0.0F ) && ( y <= 0.0F ) ) ? 180.0F : ( y - 180.0F );
 }
 /*============================================================================*/
 float ffmath::wrapTo360( float x )
 {
-    return ffmath::mod( x, 360.0F );
+    const float y = ffmath::mod( x, 360.0F );
+    return ( ( x > 0.0F ) && ( y <= 0.0F ) ) ? 360.0F : y;
 }
 /*============================================================================*/
 float ffmath::midpoint( float a,
-- 
2.43.0


From 1d84e4729e74b639aef342fbc088fb8d83eaa54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 62/78] fix: ffmath::inPolygon evaluates the edge line
 correctly

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 5d4d7d2..266ae86 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -845,7 +845,7 @@ bool ffmath::inPolygon( const float x,
             if ( ( px[ i ] > x ) != ( px[ j ] > x ) ) {
                 const float dx = px[ j ] - px[ i ];
                 const float dy = py[ j ] - py[ i ];
-                if ( y < ( ( dy*( x - px[ i ] ) )/( dx + py[ i ] ) ) ) {
+                if ( y < ( ( ( dy*( x - px[ i ] ) )/dx ) + py[ i ] ) ) {
                     retVal = !retVal;
                 }
             }
-- 
2.43.0


From f40c7cbf3128270dfc7fd1471f73a8264ce533fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 63/78] fix: ffmath::erf is an odd function that reaches 1

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 266ae86..2342d18 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -875,7 +875,7 @@ float ffmath::erf( float x )
     }
     else {
         x = ffmath::exp( 3.472034176F*x );
-        retVal = ( x/( ( absolute( x ) + 1.0F )*2.0F ) ) - 1.0F;
+        retVal = ( ( x/( absolute( x ) + 1.0F ) )*2.0F ) - 1.0F;
     }
 
     return retVal;
-- 
2.43.0


From 07383c2018d6a764f940b4d58f9c9ca59e8de214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 64/78] fix: ffmath::rexp of zero and of subnormal values

---
 src/ffmath.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 2342d18..f087be1 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -892,13 +892,23 @@ float ffmath::rexp( float x,
     uint32_t lu = bit_cast<uint32_t>( x );
     uint32_t iu;
     int32_t i = 0;
+    const auto fClass = ffmath::classify( x );
 
-    iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
-    i = bit_cast<int32_t>( iu );
-    i -= 0x7E;
-    pw2[ 0 ] = static_cast<int>( i );
-    lu &= 0x807FFFFFU; /* strip all exponent bits */
-    lu |= 0x3F000000U; /* mantissa between 0.5 and 1 */
+    if ( classification::FFP_ZERO == fClass ) {
+        pw2[ 0 ] = 0;
+    }
+    else {
+        if ( classification::FFP_SUBNORMAL == fClass ) {
+            lu = bit_cast<uint32_t>( x*16777216.0F ); /* normalize with 2^24 */
+            i = -24;
+        }
+        iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
+        i += bit_cast<int32_t>( iu );
+        i -= 0x7E;
+        pw2[ 0 ] = static_cast<int>( i );
+        lu &= 0x807FFFFFU; /* strip all exponent bits */
+        lu |= 0x3F000000U; /* mantissa between 0.5 and 1 */
+    }
 
     return bit_cast<float>( lu );
 }
-- 
2.43.0


From 9a3b05ac80a9b8f01e1e79f602f6f50ef1dbe128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 65/78] fix: ffmath::ldexp of zero, subnormal and out of range
 results

---
 src/ffmath.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f087be1..cfd2458 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -916,17 +916,21 @@ float ffmath::rexp( float x,
 float ffmath::ldexp( float x,
                      int32_t pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
-    uint32_t eu;
-    int32_t e = 0;
+    constexpr float twoP127 = 1.70141183460469231732e+38F; /* 2^127 */
+    constexpr float twoM102 = 1.97215226305252951353e-31F; /* 2^-102 */
 
-    eu = ( lu >> 23U ) & 0x000000FFU;
-    e = bit_cast<int32_t>( eu );
-    e += pw2;
-    eu = bit_cast<uint32_t>( e );
-    lu = ( ( eu & 0xFFU ) << 23U ) | ( lu & 0x807FFFFFU );
+    /* scale in steps whose last one is the only that can be inexact */
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 > 127 ) ; ++i ) {
+        x *= twoP127;
+        pw2 -= 127;
+    }
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 < -126 ) ; ++i ) {
+        x *= twoM102;
+        pw2 += 102;
+    }
+    pw2 = ( pw2 > 127 ) ? 127 : ( ( pw2 < -126 ) ? -126 : pw2 );
 
-    return bit_cast<float>( lu );
+    return x*bit_cast<float>( static_cast<uint32_t>( pw2 + 127 ) << 23U );
 }
 /*============================================================================*/
 float ffmath::hypot( float x,
-- 
2.43.0


From ace7109fa811afd6eb8329bd21a59b5db107315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 66/78] fix: ffmath::hypot scales by the largest magnitude

---
 src/ffmath.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index cfd2458..ff5f8bf 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -944,6 +944,8 @@ float ffmath::hypot( float x,
         float a, b, an, bn;
         int32_t e = 0;
 
+        x = absolute( x );
+        y = absolute( y );
         if ( x >= y ) {
             a = x;
             b = y;
-- 
2.43.0


From 5f1854cc8cef443b36d5567ce13d925639a51def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 67/78] fix: ffmath::tgamma of negative zero is negative
 infinity

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index ff5f8bf..8a0decc 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1010,7 +1010,7 @@ float ffmath::tgamma( float x )
         result = limits::nan();
     }
     else if ( classification::FFP_ZERO == fClass ) {
-        result = limits::infinity(); /* a huge value */
+        result = ffmath::copysign( limits::infinity(), x ); /* a huge value */
     }
     else if ( classification::FFP_INFINITE == fClass ) {
         result = ( x > 0.0F ) ? limits::infinity() : limits::nan();
-- 
2.43.0


From a7a9c0f2b5057fd79181b76496943697a4da90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 68/78] fix: ffmath::assoc_laguerre uses the recursion and its
 full product at zero

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 8a0decc..141d26a 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1460,7 +1460,7 @@ float ffmath::assoc_laguerre( size_t n,
     }
     else if ( ffmath::isEqual( 0.0F, x ) ) {
         float prod = alpha + 1.0F;
-        for ( size_t i = 2U ; i < n ; ++i ) {
+        for ( size_t i = 2U ; i <= n ; ++i ) {
             /*cstat -CERT-FLP36-C*/
             const float k = static_cast<float>( i );
             /*cstat +CERT-FLP36-C*/
@@ -1468,10 +1468,10 @@ float ffmath::assoc_laguerre( size_t n,
         }
         y = prod;
     }
-    else if ( ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
+    else if ( ( n > 10000000U ) && ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
         y = poly_laguerre_large_n( n, alpha, x );
     }
-    else if ( ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
+    else if ( ( alpha >= 0.0F ) || ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
         y = poly_laguerre_recursion( n, alpha, x );
     }
     else {
-- 
2.43.0


From 44f888f64f4c3531cc2eadfae5d0ab214ee127f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 69/78] fix: ffmath::assoc_legendre recursion and domain

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 141d26a..4b20fa6 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1533,7 +1533,7 @@ float ffmath::assoc_legendre( size_t n,
     if ( m > n ) {
         y = 0.0F;
     }
-    else if ( ffmath::isNan( x ) ) {
+    else if ( ffmath::isNan( x ) || ( absolute( x ) > 1.0F ) ) {
         y = limits::nan();
     }
     else if ( 0U == m ) {
@@ -1568,7 +1568,7 @@ float ffmath::assoc_legendre( size_t n,
                 for ( size_t i = ( m + 2U ) ; i <= n ; ++i ) {
                     const float j = static_cast<float>( i );
                     /*cstat +CERT-FLP36-C*/
-                    p_lm = ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m/( j - M ) );
+                    p_lm = ( ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m ) )/( j - M );
                     p_lm2m = p_lm1m;
                     p_lm1m = p_lm;
                 }
-- 
2.43.0


From 8c89f73067ef14fc70efecc68a3a25f5bf42071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 70/78] fix: ffmath::expint sign for small negative values and
 asymptotic terms

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 4b20fa6..5f01390 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2051,7 +2051,7 @@ static float expint_Ei_asymp( float x )
     for ( size_t i = 1U; i < maxIter; ++i ) {
         const float prev = term;
         /*cstat -CERT-FLP36-C*/
-        term *= -static_cast<float>( i )/x;
+        term *= static_cast<float>( i )/x;
         /*cstat +CERT-FLP36-C*/
         if ( ( term < limits::epsilon() ) || ( term >= prev ) ) {
             break;
@@ -2120,7 +2120,7 @@ static float expint_Ei( float x )
     if ( x < 0.0F ) {
         x = -x;
         if ( x < 1.0F ) {
-            y = expint_E1_series( x );
+            y = -expint_E1_series( x );
         }
         else if ( x < 100.F ) {
             y = -expint_En_cont_frac( 1, x );
-- 
2.43.0


From f4fb143a9fad350146728d1bdb3e923ba815e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 71/78] fix: ffmath modified bessel functions start their
 continued fraction from its first term

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 5f01390..87f111a 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2727,17 +2727,17 @@ static void bessel_ik( float nu,
             k_nu1 = sum1*xi2;
         }
         else {
-            float del_h = d;
             float q1 = 0.0F;
             float q2 = 1.0F;
             const float a1 = 0.25F - mu2;
             float q = a1;
             float a = -a1;
-            float s = 1.0F + ( q*del_h );
 
             b = 2.0F*( 1.0F + x );
             d = 1.0F/b;
             h = d;
+            float del_h = d;
+            float s = 1.0F + ( q*del_h );
             c = a1;
             for ( int i = 2 ; i <= max_iter; ++i) {
                 /*cstat -CERT-FLP36-C*/
-- 
2.43.0


From 8ae3b8431757a1e2c15bf91825daa0a9130293ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:11 +0000
Subject: [PATCH 72/78] fix: ffmath::erf scales its argument for the base 2
 exponential

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 87f111a..70a8282 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -874,7 +874,7 @@ float ffmath::erf( float x )
         retVal = 1.0F;
     }
     else {
-        x = ffmath::exp( 3.472034176F*x );
+        x = ffmath::exp2( 3.472034176F*x );
         retVal = ( ( x/( absolute( x ) + 1.0F ) )*2.0F ) - 1.0F;
     }
 
-- 
2.43.0


From 3560c130c94139369c2a559e622b1a049ef08e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:50 +0000
Subject: [PATCH 73/78] fix: fp16 log2 of two raw units, whose reciprocal is
 not representable

---
 src/fp16.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 79a25c2..05772df 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -460,15 +460,13 @@ fp16Raw_t fp16::log2( fp16Raw_t x ) noexcept
 
     if ( x > 0 ) {
         if ( x < one ) {
-            if ( 1 == x ) {
-                const fp16Raw_t f16 = 1048576;
-                retValue = -f16;
-            }
-            else {
-                fp16Raw_t inv;
-                inv = div( one, x );
-                retValue = -log2i( inv );
+            fp16Raw_t scaling = 0;
+
+            while ( x < one ) {
+                x <<= 1;
+                scaling += one;
             }
+            retValue = log2i( x ) - scaling;
         }
         else {
             retValue = log2i( x );
-- 
2.43.0


From 086cc3bfa0de00972c189e66bae61e4e2cf92619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:50 +0000
Subject: [PATCH 74/78] fix: fp16 pow of a negative base with an even exponent
 is positive

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 05772df..810c4b8 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -736,7 +736,7 @@ fp16Raw_t fp16::pow( fp16Raw_t x,
         tmp = mul( y, log( absolute( x ) ) );
         if ( overflow != tmp ) {
             retValue = exp( tmp );
-            if ( x < 0 ) {
+            if ( ( x < 0 ) && ( 0U != ( static_cast<uint32_t>( y ) & ( fraction_mask | static_cast<uint32_t>( one ) ) ) ) ) {
                 retValue = -retValue;
             }
         }
-- 
2.43.0


From 594a3e56048d84adede0b4af8ab03d08e7daefce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:50 +0000
Subject: [PATCH 75/78] fix: fp16 pow of a zero base with a positive exponent
 is zero

---
 src/fp16.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 810c4b8..6a676cb 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -731,6 +731,9 @@ fp16Raw_t fp16::pow( fp16Raw_t x,
     if ( ( 0U == ( static_cast<uint32_t>( y ) & fraction_mask ) ) && ( y > 0 ) ) {
         retValue = powi( x, y );
     }
+    else if ( ( 0 == x ) && ( y > 0 ) ) {
+        retValue = 0;
+    }
     else {
         fp16Raw_t tmp;
         tmp = mul( y, log( absolute( x ) ) );
-- 
2.43.0


From 26ca0f31996d210b4a0486c6a92aed2a4039930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:50 +0000
Subject: [PATCH 76/78] fix: fp16 atan2 of large operands does not overflow, of
 the origin is zero

---
 src/fp16.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 6a676cb..97909d0 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -567,13 +567,21 @@ fp16Raw_t fp16::tan( fp16Raw_t x ) noexcept
 fp16Raw_t fp16::atan2( fp16Raw_t y,
                        fp16Raw_t x ) noexcept
 {
-    fp16Raw_t absY, mask, angle, r, r_3;
+    fp16Raw_t absY, angle, r, r_3;
+    const fp16Raw_t halfMax = 1073741823;
     const fp16Raw_t QFP16_0_981689 = 0x0000FB50;
     const fp16Raw_t QFP16_0_196289 = 0x00003240;
     static const fp16Raw_t f_3pi_div_4 = 154415; /*3*pi/4*/
 
-    mask = ( y >> ( sizeof(fp16Raw_t)*7U ) );
-    absY = ( y + mask ) ^ mask;
+    absY = absolute( y );
+    if ( ( absY > halfMax ) || ( x > halfMax ) || ( x < -halfMax ) ) {
+        /* same ratio, but neither the sum nor the difference can overflow */
+        absY >>= 1;
+        x >>= 1;
+    }
+    if ( ( 0 == x ) && ( 0 == absY ) ) {
+        return 0;
+    }
     if ( x >= 0 ) {
         r = div( ( x - absY ), ( x + absY ) );
         const fp16Raw_t f_pi_4 = 51471;
-- 
2.43.0


From 31243c0a58db29a931f1187ec429884db56c8836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:50 +0000
Subject: [PATCH 77/78] fix: fp16 cos of the largest arguments does not
 overflow

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 97909d0..8fb3cb3 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -551,7 +551,7 @@ fp16Raw_t fp16::sin( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::cos( fp16Raw_t x ) noexcept
 {
-    return sin( x + f_pi_2 );
+    return sin( wrapToPi( x ) + f_pi_2 );
 }
 /*============================================================================*/
 fp16Raw_t fp16::tan( fp16Raw_t x ) noexcept
-- 
2.43.0


From 3fbc59d2bb926c29965f0d7da6a2c3813eeda005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:34 +0000
Subject: [PATCH 78/78] fix: fuzzy system setup forgets the selected input of
 the previous configuration

---
 src/fis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fis.cpp b/src/fis.cpp
index 53889cd..d40fbd2 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -102,6 +102,7 @@ bool fis::instance::setup( const fis::type t,
         xRules = r;
         wi = rWeights;
         nRules = n;
+        lastTag = -1;
         deFuzz = ( Mamdani == xType )? &deFuzzCentroid : &deFuzzWtAverage;
         (void)setParameter( FIS_AND, FIS_MIN );
         (void)setParameter( FIS_OR, FIS_MAX );
-- 
2.43.0

