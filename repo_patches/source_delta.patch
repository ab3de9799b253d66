From 3c60bd0209ea23c5c15c04e21b892a206c492b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:53 +0000
Subject: [PATCH 01/60] fix: bitfield n-bit access of zero width must not shift
 by 32 bits

---
 src/bitfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index ae846b5..dbaa998 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -115,7 +115,7 @@ uint32_t bitfield::readUINTn( const size_t index,
 {
     uint32_t retValue = 0U;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         if ( 1U == xBits ) {
             retValue = static_cast<uint32_t>( readBit( index ) );
         }
@@ -137,7 +137,7 @@ bool bitfield::writeUINTn( const size_t index,
 {
     bool retValue = false;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
-- 
2.43.0


From e60c850c96cb68c8dd241aa578a149a07b853d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:53 +0000
Subject: [PATCH 02/60] fix: tdl indexed access on a single-element line reads
 past the area

---
 src/tdl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdl.cpp b/src/tdl.cpp
index fda5ca5..9ea5128 100644
--- a/src/tdl.cpp
+++ b/src/tdl.cpp
@@ -54,7 +54,7 @@ real_t tdl::getRecent( void ) const noexcept
 real_t tdl::getAtIndex( const size_t i ) const noexcept
 {
     /*cstat -MISRAC++2008-5-0-3*/
-    return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+    return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                       : *( rd - i );
     /*cstat +MISRAC++2008-5-0-3*/
 }
@@ -71,7 +71,7 @@ const real_t& tdl::operator[]( int index ) noexcept
     /*cstat -MISRAC++2008-6-6-5*/
     if ( ( index >= 0 ) && ( i < itemCount ) ) {
         /*cstat -MISRAC++2008-5-0-3*/
-        return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+        return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                           : *( rd - i );
         /*cstat +MISRAC++2008-5-0-3*/
     }
-- 
2.43.0


From e35124d382b0a54b772c65a32969abd5013a84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:54 +0000
Subject: [PATCH 03/60] fix: pid setup must validate the requested time step,
 not the previous one

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index d38fdef..b25ec87 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -14,7 +14,7 @@ bool pidController::setup( const real_t kc,
 {
     bool retValue = false;
 
-    if ( dt > 0.0_re ) {
+    if ( dT > 0.0_re ) {
         dt = dT;
         isInitialized = true;
         (void)setDerivativeFilter( 0.98_re );
-- 
2.43.0


From 8dc87bd27471e4c5f8bc172a097a682afddb2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:49 +0000
Subject: [PATCH 04/60] fix: pid derivative term must differentiate its own
 weighted error signal

---
 src/include/pid.hpp | 8 ++++++++
 src/pid.cpp         | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/include/pid.hpp b/src/include/pid.hpp
index b661adc..47fb82b 100644
--- a/src/include/pid.hpp
+++ b/src/include/pid.hpp
@@ -143,6 +143,7 @@ namespace qlibs {
             real_t alpha, gamma; /*MRAC additive controller parameters*/
             nState m_state; /*MRAC additive controller state*/
             nState b_state; /*Bumpless-transfer state*/
+            nState d_state; /*Derivative term state*/
             pidAutoTuning *adapt{ nullptr };
             pidMode mode{ pidMode::PID_AUTOMATIC };
             pidDirection dir{ pidDirection::PID_FORWARD };
@@ -389,6 +390,13 @@ namespace qlibs {
             */
             bool setAutoTuningControllerType( const pidType t ) noexcept;
 
+            /*! @cond  */
+            inline void setDerivationMethod( derivationMethod m ) noexcept
+            {
+                d_state.setDerivationMethod( m );
+            }
+            /*! @endcond  */
+
             /**
             * @brief Reset the internal PID controller calculations.
             * @return @c true on success, otherwise return @c false.
diff --git a/src/pid.cpp b/src/pid.cpp
index b25ec87..f6d1530 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -217,6 +217,7 @@ bool pidController::reset( void ) noexcept
 
     if ( isInitialized ) {
         init(); //internal controller state
+        d_state.init();
         m_state.init();
         b_state.init();
         D = 0.0_re;
@@ -285,7 +286,7 @@ real_t pidController::control( const real_t w,
             kd = ( kd > 0.0_re ) ? -kd : kd;
         }
         e = error( w, y );
-        de = derive( error( w, y, c ) , dt, false );
+        de = d_state.derive( error( w, y, c ), dt );
         ie = integrate( e + u1 , dt );
         D = de + beta*( D - de ); /*derivative filtering*/
         v  = ( kc*error( w, y, b ) ) + ( ki*ie ) + ( kd*D ); /*compute PID action*/
-- 
2.43.0


From ddfad96700d951ebc72788888ac7e79df0ff83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 05/60] fix: lti systems must not clamp negative outputs unless
 a saturation is set

---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index ee63527..d4451e7 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -189,7 +189,7 @@ namespace qlibs {
             size_t na{ 0U };
             size_t nb{ 0U };
             real_t b0{ 0.0_re };
-            real_t min{ REAL_MIN };
+            real_t min{ -REAL_MAX };
             real_t max{ REAL_MAX };
             void normalizeTransferFunction( real_t *num,
                                             real_t *den,
-- 
2.43.0


From 043f0b54aa27e135ff9890dbd5eefb232f83ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 06/60] fix: discrete system setup swaps numerator and
 denominator sizes when normalizing

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index bdfc3c1..3da15e3 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -141,7 +141,7 @@ bool discreteSystem::setup( real_t *num,
         xd = x;
         a = &den[ 1 ];
         type = LTISYS_TYPE_DISCRETE;
-        normalizeTransferFunction( num, den, n_a, n_b );
+        normalizeTransferFunction( num, den, n_b, n_a );
         (void)setInitStates();
         retValue = true;
     }
-- 
2.43.0


From a25f1ab6c8c70038053c7b25bfb631cc292d092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:04 +0000
Subject: [PATCH 07/60] fix: discrete system reads past the numerator when its
 order is below the denominator's

---
 src/ltisys.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 3da15e3..9ba87d0 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -157,7 +157,11 @@ real_t discreteSystem::update( const real_t u )
     for ( size_t i = 0 ; i < na ; ++i ) {
         v -= a[ i ]*xd[ i ];
     }
-    return updateFIR( xd, n, v, b );
+    /*states beyond the numerator order only need to be delayed*/
+    for ( size_t i = ( n - 1U ) ; i >= nb ; --i ) {
+        xd[ i ] = xd[ i - 1U ];
+    }
+    return updateFIR( xd, nb, v, b );
 }
 /*============================================================================*/
 bool continuousSystem::setup( real_t *num,
-- 
2.43.0


From c30c5ff01d3ecf2c86fd9f10805be0c5c95b03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 08/60] fix: continuous system output lacks the direct
 feedthrough of the input

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 9ba87d0..aaa1f20 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -235,7 +235,7 @@ real_t continuousSystem::update( const real_t u )
         /*compute the remaining part of the output*/
     }
     /*get the output of the system*/
-    y += ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ];
+    y += ( ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ] ) + ( b0*u );
 
     return y;
 }
-- 
2.43.0


From 954af47b128222c3bd313d5baa285b331b6f8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 09/60] fix: continuous system initial states must be taken
 element by element

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index aaa1f20..0ab2594 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -196,7 +196,7 @@ bool continuousSystem::setInitStates( const real_t *xi )
     if ( isInitialized() ) {
         if ( nullptr != xi ) {
             for ( size_t i = 0U; i < n ; ++i ) {
-                xc[ i ].init( xi[ 0 ], xi[ 0 ], xi[ 0 ] );
+                xc[ i ].init( xi[ i ], xi[ i ], xi[ i ] );
             }
         }
         else {
-- 
2.43.0


From a5ed65abd842715dac49271378721bb344b0b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 10/60] fix: moving window setup must validate the requested
 window size

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 4a39430..fc2e21f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -87,7 +87,7 @@ bool smootherMWM1::setup( real_t *window,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) ) {
+    if ( ( nullptr != window ) && ( w_size > 0U ) ) {
         w = window;
         wsize = w_size;
         retValue = reset();
-- 
2.43.0


From bea0b10b96c5f2249786a60ca70bbecb7a61caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 11/60] fix: O(1) outlier removal must return the filtered
 sample

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index fc2e21f..7cf053f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -210,7 +210,7 @@ real_t smootherMOR2::smooth( const real_t x )
     m = sum/wsize;
     insertSample( xx );
 
-    return x;
+    return xx;
 }
 /*============================================================================*/
 bool smootherGMWF::setup( const real_t sg,
-- 
2.43.0


From efc0fa37dbd90fa1d6ccc8f42cd66a4a9decac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 12/60] fix: adaptive filter reads the previous weights past
 its weights array

---
 src/smoother.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 7cf053f..17be5dc 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -403,11 +403,9 @@ real_t smootherALNF::smooth( const real_t x )
     }
     xe = discreteSystem::updateFIR( xx, n, x, w );
     if ( nullptr != w_1 ) {
-        real_t * const ww_1 = &w[ n ];
-
         for ( size_t i = 0U ; i < n ; ++i ) {
             const real_t w0 = w[ i ];
-            const real_t w1 = ww_1[ i ];
+            const real_t w1 = w_1[ i ];
 
             w[ i ] += ( alpha*( x - xe )*xx[ i ] ) + ( mu*( w0 - w1 ) );
             w_1[ i ] = w0;
-- 
2.43.0


From 68549e90b53b6c6ed67c3553dece04dae3bd1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 13/60] fix: adaptive filter without momentum could never be
 set up

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 17be5dc..c303f05 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m > 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From 54f1b9e24731b7ba3ff06dc2498ff27e884c9a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:43 +0000
Subject: [PATCH 14/60] fix: sort with a comparison function must partition
 around the pivot value

---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 372bd5f..7cc450c 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -118,7 +118,7 @@ namespace qlibs {
 
                     for ( int i = start; i < end; ++i ) {
                         if ( nullptr != comp ) {
-                            if ( comp( array[ i ], array[ pivotIndex ] ) ) {
+                            if ( comp( array[ i ], pivotValue ) ) {
                                 algorithm::swap( array[ i ], array[ pivotIndex ] );
                                 ++pivotIndex;
                             }
-- 
2.43.0


From b7d773a4e4ecf8e5217600d3648301849231f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:43 +0000
Subject: [PATCH 15/60] fix: replace and replace_if must replace every matching
 element

---
 src/include/algorithm.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 7cc450c..f37c842 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -327,7 +327,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( old_value == array[ i ] ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
@@ -354,7 +353,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
-- 
2.43.0


From 926c43b4ee07a31b806f6e1a3ff0b3a0213d7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:43 +0000
Subject: [PATCH 16/60] fix: find_if must return the first match, not the last

---
 src/include/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index f37c842..cadeb68 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -411,6 +411,7 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     found = &array[ i ];
+                    break;
                 }
             }
             return found;
-- 
2.43.0


From c6b853b9ac864fba1679783ce2bc1299970d6ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:43 +0000
Subject: [PATCH 17/60] fix: left rotation by a multiple of the array size
 accesses memory outside the array

---
 src/include/algorithm.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index cadeb68..d8fa3c8 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -185,12 +185,14 @@ namespace qlibs {
                 }
                 else {
                     /*cstat -MISRAC++2008-5-0-9*/
-                    r = static_cast<size_t>( -k );
+                    r = static_cast<size_t>( -static_cast<int64_t>( k ) );
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
-                    algorithm::reverse( array, 0U, r - 1U );
-                    algorithm::reverse( array, r, n - 1U );
-                    algorithm::reverse( array, 0U, n - 1U );
+                    if ( r > 0U ) {
+                        algorithm::reverse( array, 0U, r - 1U );
+                        algorithm::reverse( array, r, n - 1U );
+                        algorithm::reverse( array, 0U, n - 1U );
+                    }
                 }
             }
         }
-- 
2.43.0


From 5313eb54ecd8013c1fb20f72ce087b695c04b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:23 +0000
Subject: [PATCH 18/60] fix: gaussian filter setup must refuse a null kernel

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index c303f05..e5a4fb6 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -222,7 +222,7 @@ bool smootherGMWF::setup( const real_t sg,
     bool retValue = false;
     const size_t ws = wk_size;
     /*cstat -CERT-FLP36-C*/
-    if ( ( nullptr != window ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != kernel ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
         real_t r, sum = 0.0_re;
         size_t i;
         real_t l, center;
-- 
2.43.0


From 0ccf07350ad0d609245e5abe49ca79b52ebe6503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:23 +0000
Subject: [PATCH 19/60] fix: adaptive filter setup must refuse null weights

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index e5a4fb6..21380e8 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != weights ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From 86d8fdfd19beccd9b34e039f632ac701993b8174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:23 +0000
Subject: [PATCH 20/60] fix: rms must refuse a second stage parameter of 1,
 which freezes its output

---
 src/rms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rms.cpp b/src/rms.cpp
index 81c9869..ddd762f 100644
--- a/src/rms.cpp
+++ b/src/rms.cpp
@@ -35,7 +35,7 @@ bool rms::setParams( const real_t l,
 {
     bool retValue = false;
 
-    if ( ( l > 0.0_re ) && ( l <= 1.0_re ) && ( a > 0.0_re ) && ( a <= 1.0_re ) ) {
+    if ( ( l > 0.0_re ) && ( l <= 1.0_re ) && ( a > 0.0_re ) && ( a < 1.0_re ) ) {
         lambda = l;
         alpha = a;
         retValue = true;
-- 
2.43.0


From 6e26871bc0bc17321a91171fbb607e8991f9aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:48 +0000
Subject: [PATCH 21/60] fix: next-neighbor interpolation skips the first point
 and misses the table points

---
 src/interp1.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index a40ecf6..181566e 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -38,19 +38,13 @@ real_t interp1::next( const real_t x,
     if ( ( tableSize >= 2U ) && ( nullptr != tx ) && ( nullptr != ty ) ) {
         size_t nearestIndex = tableSize - 1U;
 
-        for ( size_t i = 0U ; i < tableSize - 1U ; ++i ) {
-            if ( x < tx[ i + 1U ] ) {
+        for ( size_t i = 0U ; i < tableSize ; ++i ) {
+            if ( x <= tx[ i ] ) {
                 nearestIndex = i;
                 break;
             }
         }
-
-        if ( x >= tx[ tableSize - 1U ] ) {
-            y = ty[ tableSize - 1U ];
-        }
-        else {
-            y = ty[ nearestIndex + 1U ];
-        }
+        y = ty[ nearestIndex ];
     }
 
     return y;
-- 
2.43.0


From 9b5cf4a634d55d27ea3ad3317b3deb9b933ba28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:48 +0000
Subject: [PATCH 22/60] fix: sine interpolation must stop at the interval that
 holds the input

---
 src/interp1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 181566e..d9d4412 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -171,6 +171,7 @@ real_t interp1::sine( const real_t x,
                     const real_t y1 = ty[ i];
                     const real_t w = 0.5_re - 0.5_re*ffmath::cos( ffmath::FFP_PI*( x - x0 )/( x1 - x0 ) );
                     y = y0 + w*( y1 - y0 );
+                    break;
                 }
             }
         }
-- 
2.43.0


From ded76dccb05c07e104b7bcb6133ac397d5303550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:48 +0000
Subject: [PATCH 23/60] fix: cubic interpolation reads before the table in its
 first interval

---
 src/interp1.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index d9d4412..4f85376 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -223,12 +223,13 @@ real_t interp1::cubic( const real_t x,
                     const real_t x1 = tx[ i ];
                     const real_t y0 = ty[ i - 1U ];
                     const real_t y1 = ty[ i ];
+                    const real_t d0 = ( i > 1U ) ? ( y0 - ty[ i - 2U ] ) : ( y1 - y0 );
                     const real_t h = x1 - x0;
                     const real_t t = ( x - x0 )/h;
                     const real_t t2 = t*t;
                     const real_t t3 = t2*t;
                     y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                        ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ i - 2U ] ) +
+                        ( t3 - 2.0_re*t2 + t )*h*d0 +
                         ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
                         ( t3 - t2 )*h*( y1 - y0 );
                     break;
-- 
2.43.0


From 3f228cbf597e2e1157edf0e50a9ba5e9d17ba599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:48 +0000
Subject: [PATCH 24/60] fix: constrained spline must not overshoot in the first
 and last intervals

---
 src/interp1.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 4f85376..ac13a4d 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -415,13 +415,23 @@ real_t interp1::firstDerivate( const real_t * const tx,
         const real_t dx = tx[ 1 ] - tx[ 0 ];
         const real_t dy = ty[ 1 ] - ty[ 0 ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ 2 ] - tx[ 0 ] )/( ty[ 2 ] - ty[ 0 ] ) + dx/dy );
+        const real_t tmp1 = ( tx[ 2 ] - tx[ 1 ] )/( ty[ 2 ] - ty[ 1 ] );
+        const real_t tmp2 = dx/dy;
+
+        if ( ( tmp1*tmp2 ) >= 0.0_re ) {
+            fd1_x -= 1.0_re/( tmp1 + tmp2 );
+        }
     }
     else if ( n == i ) {
         const real_t dx = tx[ n ] - tx[ n - 1U ];
         const real_t dy = ty[ n ] - ty[ n - 1U ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ n ] - tx[ n - 2U ] )/( ty[ n ] - ty[ n - 2U ] ) + ( dx/dy ) );
+        const real_t tmp1 = ( tx[ n - 1U ] - tx[ n - 2U ] )/( ty[ n - 1U ] - ty[ n - 2U ] );
+        const real_t tmp2 = dx/dy;
+
+        if ( ( tmp1*tmp2 ) >= 0.0_re ) {
+            fd1_x -= 1.0_re/( tmp1 + tmp2 );
+        }
     }
     else {
         const real_t tmp1 = ( tx[ i + 1U ] - tx[ i ] )/( ty[ i + 1U ] - ty[ i ] );
-- 
2.43.0


From 611040822854904bdd1078eeb62a42dc5c9f2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:16 +0000
Subject: [PATCH 25/60] fix: constrained spline must not swap the curvatures of
 the interval ends

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index ac13a4d..86d03b9 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -377,8 +377,8 @@ real_t interp1::cSpline( const real_t x,
             const real_t x0_2 = x0*x0;
             const real_t x0_3 = x0_2*x0;
             const real_t inv_x0_x1 = 1.0_re/x0_x1;
-            const real_t d = ( fd2i_x - fd2i_xl1 )*( 0.166666667_re*inv_x0_x1 );
-            const real_t c = ( ( x0*fd2i_xl1 ) - ( x1*fd2i_x ) )*( 0.5_re*inv_x0_x1 );
+            const real_t d = ( fd2i_xl1 - fd2i_x )*( 0.166666667_re*inv_x0_x1 );
+            const real_t c = ( ( x0*fd2i_x ) - ( x1*fd2i_xl1 ) )*( 0.5_re*inv_x0_x1 );
             const real_t b = ( y0 - y1 - c*( x0_2 - x1_2 ) - d*( x0_3 - x1_3 ) )*inv_x0_x1;
             const real_t a = y1 - ( b*x1 ) - ( c*x1_2 ) - ( d*x1_3 );
             y = a + x*( b + x*( c + ( x*d ) ) );
-- 
2.43.0


From 274a4384b7cd104c7e3ea16cf1480d0b19e05a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:14 +0000
Subject: [PATCH 26/60] fix: matrix pre-decrement must decrement its elements

---
 src/include/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 680733f..f2c6255 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -257,7 +257,7 @@ namespace qlibs {
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        ++m[i][j];
+                        --m[i][j];
                     }
                 }
                 return *this;
-- 
2.43.0


From e1a839cdeecca75dc75695570fdef384b1ff8835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:14 +0000
Subject: [PATCH 27/60] fix: matrix infinity norm reads outside of non-square
 matrices

---
 src/include/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index f2c6255..117c308 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -470,9 +470,9 @@ namespace qlibs {
                 size_t i,j;
                 real_t maxM =0.0_re, sum = 0.0_re;
 
-                for ( i = 0U ; i < Cols; i++ ) {
+                for ( i = 0U ; i < Rows; i++ ) {
                     sum = 0.0_re;
-                    for ( j = 0U ; j < Rows ; ++j ) {
+                    for ( j = 0U ; j < Cols ; ++j ) {
                         sum += ( m[i][j] < 0.0_re ) ? -m[i][j] : m[i][j];
                     }
                     if ( 0U == i ) {
-- 
2.43.0


From 94e4d9bbb483a644aad018a34b425b5a87d859da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:14 +0000
Subject: [PATCH 28/60] fix: matrix inverse fails on invertible matrices with a
 zero pivot

---
 src/include/mat.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 117c308..8cd1e93 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -445,7 +445,24 @@ namespace qlibs {
                 mat<Rows,Rows> I( MAT_IDENTITY );
 
                 for ( size_t i = 0; i < Rows; ++i ) {
-                    real_t pivot = X(i, i);
+                    size_t p = i;
+                    // Select the largest element of the column as the pivot
+                    for ( size_t j = i + 1; j < Rows; ++j ) {
+                        if ( ffmath::absf( X(j, i) ) > ffmath::absf( X(p, i) ) ) {
+                            p = j;
+                        }
+                    }
+                    if ( p != i ) {
+                        for ( size_t j = 0; j < Rows; ++j ) {
+                            const real_t x = X(i, j);
+                            const real_t e = I(i, j);
+                            X(i, j) = X(p, j);
+                            I(i, j) = I(p, j);
+                            X(p, j) = x;
+                            I(p, j) = e;
+                        }
+                    }
+                    const real_t pivot = X(i, i);
                     // Make the diagonal element 1
                     for ( size_t j = 0; j < Rows; ++j ) {
                         X(i, j) /= pivot;
-- 
2.43.0


From 36af743232793feb03d2c2aaef7b60115d1f841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:38 +0000
Subject: [PATCH 29/60] fix: the remainder of zero must be zero, only a zero
 divisor has no remainder

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7bfd6ba..52c5ac2 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -404,7 +404,7 @@ float ffmath::frac( float x )
 float ffmath::rem( float x,
                    float y )
 {
-    return ( classification::FFP_ZERO == classify( x ) ) ? limits::nan()
+    return ( classification::FFP_ZERO == classify( y ) ) ? limits::nan()
                                                          : ( x - ( y*ffmath::trunc( x/y ) ) );
 }
 /*============================================================================*/
-- 
2.43.0


From ed2247302cb6566662e10f43b1b42f9a1ecf8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:38 +0000
Subject: [PATCH 30/60] fix: inPolygon must compare with the height of the edge
 at the given point

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 52c5ac2..f171667 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -800,7 +800,7 @@ bool ffmath::inPolygon( const float x,
             if ( ( px[ i ] > x ) != ( px[ j ] > x ) ) {
                 const float dx = px[ j ] - px[ i ];
                 const float dy = py[ j ] - py[ i ];
-                if ( y < ( ( dy*( x - px[ i ] ) )/( dx + py[ i ] ) ) ) {
+                if ( y < ( ( ( dy*( x - px[ i ] ) )/dx ) + py[ i ] ) ) {
                     retVal = !retVal;
                 }
             }
-- 
2.43.0


From 2f34cda002ac82866352b9099e2dbef4e0ac84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:38 +0000
Subject: [PATCH 31/60] fix: rexp must decompose zero and subnormal values as
 documented

---
 src/ffmath.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f171667..8bcb19b 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -844,18 +844,27 @@ float ffmath::erfc( float x )
 float ffmath::rexp( float x,
                     int32_t *pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
-    uint32_t iu;
+    const classification fClass = ffmath::classify( x );
     int32_t i = 0;
 
-    iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
-    i = bit_cast<int32_t>( iu );
-    i -= 0x7E;
-    pw2[ 0 ] = static_cast<int>( i );
-    lu &= 0x807FFFFFU; /* strip all exponent bits */
-    lu |= 0x3F000000U; /* mantissa between 0.5 and 1 */
+    if ( classification::FFP_ZERO != fClass ) {
+        uint32_t lu, iu;
 
-    return bit_cast<float>( lu );
+        if ( classification::FFP_SUBNORMAL == fClass ) {
+            x *= 33554432.0F; /* make it normal, 2^25 */
+            i = -25;
+        }
+        lu = bit_cast<uint32_t>( x );
+        iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
+        i += bit_cast<int32_t>( iu );
+        i -= 0x7E;
+        lu &= 0x807FFFFFU; /* strip all exponent bits */
+        lu |= 0x3F000000U; /* mantissa between 0.5 and 1 */
+        x = bit_cast<float>( lu );
+    }
+    pw2[ 0 ] = i;
+
+    return x;
 }
 /*============================================================================*/
 float ffmath::ldexp( float x,
-- 
2.43.0


From f573a3332cfac2e010ecdd6f6cabb65452c76d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:38 +0000
Subject: [PATCH 32/60] fix: ldexp must overflow to infinity and underflow
 gradually

---
 src/ffmath.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 8bcb19b..3c6543d 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -870,17 +870,23 @@ float ffmath::rexp( float x,
 float ffmath::ldexp( float x,
                      int32_t pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
+    constexpr float up = 1.7014118346046923e+38F; /* 2^127 */
+    constexpr float down = 1.9721522630525295e-31F; /* 2^-102 */
     uint32_t eu;
-    int32_t e = 0;
 
-    eu = ( lu >> 23U ) & 0x000000FFU;
-    e = bit_cast<int32_t>( eu );
-    e += pw2;
-    eu = bit_cast<uint32_t>( e );
-    lu = ( ( eu & 0xFFU ) << 23U ) | ( lu & 0x807FFFFFU );
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 > 127 ) ; ++i ) {
+        x *= up;
+        pw2 -= 127;
+    }
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 < -126 ) ; ++i ) {
+        x *= down;
+        pw2 += 102;
+    }
+    pw2 = ( pw2 > 127 ) ? 127 : pw2;
+    pw2 = ( pw2 < -126 ) ? -126 : pw2;
+    eu = static_cast<uint32_t>( pw2 + 127 );
 
-    return bit_cast<float>( lu );
+    return x*bit_cast<float>( eu << 23U );
 }
 /*============================================================================*/
 float ffmath::hypot( float x,
-- 
2.43.0


From cdfececc93bb41ec929ce7f88245f9d181f46e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:38 +0000
Subject: [PATCH 33/60] fix: hypot must order its arguments by magnitude

---
 src/ffmath.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 3c6543d..91d5f17 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -900,6 +900,8 @@ float ffmath::hypot( float x,
         float a, b, an, bn;
         int32_t e = 0;
 
+        x = absolute( x );
+        y = absolute( y );
         if ( x >= y ) {
             a = x;
             b = y;
-- 
2.43.0


From b73538ec12fb4e8007e7b2c98a5b9bd60364870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:38 +0000
Subject: [PATCH 34/60] fix: angle wrapping must keep the documented ends of
 its interval

---
 src/ffmath.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 91d5f17..8aa233a 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -672,22 +672,24 @@ float ffmath::atanh( float x )
 /*============================================================================*/
 float ffmath::wrapToPi( float x )
 {
-    return ffmath::mod( x + ffmath::FFP_PI, ffmath::FFP_2PI ) - ffmath::FFP_PI;
+    return ( absolute( x ) > ffmath::FFP_PI ) ? ( ffmath::wrapTo2Pi( x + ffmath::FFP_PI ) - ffmath::FFP_PI ) : x;
 }
 /*============================================================================*/
 float ffmath::wrapTo2Pi( float x )
 {
-    return ffmath::mod( x, ffmath::FFP_2PI );
+    const float y = ffmath::mod( x, ffmath::FFP_2PI );
+    return ( ( x > 0.0F ) && ( classification::FFP_ZERO == classify( y ) ) ) ? ffmath::FFP_2PI : y;
 }
 /*============================================================================*/
 float ffmath::wrapTo180( float x )
 {
-    return ffmath::mod( x + 180.0F, 360.0F ) - 180.0F;
+    return ( absolute( x ) > 180.0F ) ? ( ffmath::wrapTo360( x + 180.0F ) - 180.0F ) : x;
 }
 /*============================================================================*/
 float ffmath::wrapTo360( float x )
 {
-    return ffmath::mod( x, 360.0F );
+    const float y = ffmath::mod( x, 360.0F );
+    return ( ( x > 0.0F ) && ( classification::FFP_ZERO == classify( y ) ) ) ? 360.0F : y;
 }
 /*============================================================================*/
 float ffmath::midpoint( float a,
-- 
2.43.0


From b2594cc4edc884b533d79aa64ec2bd65e7f86b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 35/60] fix: triangular and trapezoidal sets with a vertical
 edge must include their corner

---
 src/fisCore.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index e2c5a5e..b7f472a 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -18,7 +18,8 @@ real_t fis::core::TriMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
     c = p[ 2 ];
-    tmp = Min( ( x - a )/( b - a ) , ( c - x )/( c - b ) );
+    tmp = ( x < b ) ? ( ( x - a )/( b - a ) ) : 1.0_re;
+    tmp = Min( tmp, ( x > b ) ? ( ( c - x )/( c - b ) ) : 1.0_re );
 
     return Max( tmp , 0.0_re );
 }
@@ -35,8 +36,8 @@ real_t fis::core::TrapMF( const fis::ioBase * const in,
     b = p[ 1 ];
     c = p[ 2 ];
     d = p[ 3 ];
-    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( tmp, ( d - x )/( d - c ) ) ;
+    tmp = ( x < b ) ? ( ( x - a )/( b - a ) ) : 1.0_re;
+    tmp = Min( tmp, ( x > c ) ? ( ( d - x )/( d - c ) ) : 1.0_re );
 
     return Max( tmp , 0.0_re );
 }
-- 
2.43.0


From 1a5e962923a355750203602614ebe2f99c8a68bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 36/60] fix: the second half of the gaussian combination must
 apply above its center

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index b7f472a..51093b4 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -82,7 +82,7 @@ real_t fis::core::Gauss2MF( const fis::ioBase * const in,
     c1 = p[ 1 ];
     c2 = p[ 3 ];
     f1 = ( x <= c1 ) ? GaussMF( in , p, n ) : 1.0_re;
-    f2 = ( x <= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
+    f2 = ( x >= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
 
     return f1*f2;
 }
-- 
2.43.0


From 3a11a9c6388771a95b61e716ec50973cd3f2d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 37/60] fix: the linear z-shaped set and its inverse must fall
 from the first point to the second

---
 src/fisCore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 51093b4..116aa42 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -287,7 +287,7 @@ real_t fis::core::LinZMF( const fis::ioBase * const in,
             y = 0.0_re;
         }
         else {
-            y = ( a - x )/( a - b );
+            y = ( b - x )/( b - a );
         }
     }
     else if ( ffmath::isEqual( a, b ) ) {
@@ -413,7 +413,7 @@ real_t fis::core::TLinZMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
 
-    return a - ( ( a - b )*x );
+    return b - ( ( b - a )*x );
 }
 /*============================================================================*/
 real_t fis::core::TRampMF( const ioBase * const in,
-- 
2.43.0


From c77095e7b34ad9066744821e1fbd584632bff51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 38/60] fix: the output level of a Tsukamoto rule must be
 induced by its firing strength

---
 src/fis.cpp     | 12 +++++++++++-
 src/fisCore.cpp |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index d2fdcc3..15583c4 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -382,7 +382,17 @@ size_t fis::instance::inferenceConsequent( size_t i ) noexcept
         }
         else { /* Sugeno and Tsukamoto*/
             real_t zi;
-            zi = m.membership( xInput, nInputs );
+            if ( Tsukamoto == xType ) { /* output level induced by the rule strength*/
+                fis::ioBase strength;
+
+                strength.value = wi[ ruleCount ];
+                strength.min = o.min;
+                strength.max = o.max;
+                zi = m.membership( &strength );
+            }
+            else {
+                zi = m.membership( xInput, nInputs );
+            }
             o.v[ sum_wz ] += zi*wi[ ruleCount ];
             o.v[ sum_w ] += wi[ ruleCount ];
         }
diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 116aa42..2a250ed 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -366,12 +366,14 @@ real_t fis::core::TConcaveMF( const fis::ioBase * const in,
                               const real_t *p,
                               const size_t n )
 {
+    const real_t x = in[ 0 ].value;
     real_t i, e;
+    (void)n;
 
     i = p[ 0 ];
     e = p[ 1 ];
 
-    return ( ( i - e )/ConcaveMF( in, p, n ) ) + ( 2.0_re*e ) - i;
+    return ( ( i - e )/x ) + ( 2.0_re*e ) - i;
 }
 /*============================================================================*/
 real_t fis::core::SpikeMF( const fis::ioBase * const in,
-- 
2.43.0


From 5186df5652c2c9dd1d767ff74b6e8aace6898989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 39/60] fix: the Tsukamoto s-shaped and z-shaped sets must
 invert their shape

---
 src/fisCore.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 2a250ed..149a1d0 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -199,7 +199,7 @@ real_t fis::core::TSMF( const fis::ioBase * const in,
     ta = a + ffmath::sqrt( x*diff );
     tmp.value = ta;
     ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( -( x - 1.0_re )*diff );
+    tb = b - ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = tb;
     mb = SMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
@@ -315,10 +315,10 @@ real_t fis::core::TZMF( const fis::ioBase * const in,
     diff = 0.5_re*diff*diff;
     ta = a + ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = ta;
-    ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( x*diff );
+    ma = ZMF( &tmp, p, n );
+    tb = b - ffmath::sqrt( x*diff );
     tmp.value = tb;
-    mb = SMF( &tmp, p, n );
+    mb = ZMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
 }
 /*============================================================================*/
-- 
2.43.0


From 96529ac95790b709dca3396867c9907acaf6c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 40/60] fix: the smallest of maximum must keep the first
 maximum

---
 src/fisCore.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 149a1d0..bdd1025 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -624,17 +624,17 @@ real_t fis::core::deFuzzSOM( fis::output * const o,
 
     switch ( stage ) {
         case FIS_DEFUZZ_COMPUTE:
-            if ( o->y >= o->v[ yMax ] ) {
+            if ( o->y > o->v[ yMax ] ) {
                 o->v[ yMax ] = o->y;
-                o->v[ xLargest ] = o->x;
+                o->v[ xSmallest ] = o->x;
             }
             break;
         case FIS_DEFUZZ_INIT:
             o->v[ yMax ] = -1.0_re;
-            o->v[ xLargest ] = o->min;
+            o->v[ xSmallest ] = o->min;
             break;
         case FIS_DEFUZZ_END:
-            d = o->v[ xLargest ];
+            d = o->v[ xSmallest ];
             break;
         default:
             break;
-- 
2.43.0


From 0600d3431665c4b0ec7ead1ff8cead95049f3814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 41/60] fix: only the documented implication operators must be
 accepted

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 15583c4..c9c370e 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -19,7 +19,7 @@ bool fis::instance::setParameter( const fis::parameter p,
             }
             break;
         case fis::parameter::FIS_Implication:
-            if ( x <= fis::paramValue::FIS_PROBOR ) {
+            if ( x <= fis::paramValue::FIS_PROD ) {
                 implicate = method[ x ];
                 retValue = true;
             }
-- 
2.43.0


From 1c886ce6b90ac7294b00a522b0ed47c5482b065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 42/60] fix: fuzzy system setters must refuse tags outside of
 their arrays

---
 src/fis.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index c9c370e..f299c9e 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -122,7 +122,7 @@ bool fis::instance::setupInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].min = Min;
         xInput[ t ].max = Max;
@@ -139,7 +139,7 @@ bool fis::instance::setupOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         xOutput[ t ].min = Min;
         xOutput[ t ].max = Max;
@@ -172,7 +172,7 @@ bool fis::instance::setInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].value = value;
         /*cstat +CERT-STR34-C*/
@@ -187,7 +187,7 @@ bool fis::instance::getOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xOutput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         value = xOutput[ t ].value;
         /*cstat +CERT-STR34-C*/
@@ -217,7 +217,11 @@ bool fis::instance::setMF( fis::mf *m,
         &TLinSMF, &TLinZMF, &TConcaveMF, &TSigMF, &TSMF, &TZMF, &TRampMF
     };
 
-    if ( ( io >= 0 ) && ( mf >= 0 ) && ( s < FIS_NUM_MFS ) ) {
+    const size_t nIO = ( inMF == m ) ? nInputs : nOutputs;
+    const size_t nMF = ( inMF == m ) ? nMFInputs : nMFOutputs;
+
+    if ( ( io >= 0 ) && ( static_cast<size_t>( io ) < nIO ) &&
+         ( mf >= 0 ) && ( static_cast<size_t>( mf ) < nMF ) && ( s < FIS_NUM_MFS ) ) {
         /*cstat -CERT-STR34-C*/
         m[ mf ].shape = ( nullptr != customMf ) ? customMf : fShape[ s ];
         m[ mf ].index = static_cast<size_t>( io );
-- 
2.43.0


From 808d6fb509cf3080d2b4f1096a553d7a667121d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 43/60] fix: the output operator must never read the inputs

---
 src/include/fis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 924e8c7..4788981 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -833,7 +833,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xInput[ nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xOutput[ nOutputs - 1U ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
@@ -1168,7 +1168,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xInput[ sys.nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xOutput[ sys.nOutputs - 1U ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
-- 
2.43.0


From 31e27eeaa32a4401e43ad74d2352416a782cf776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:19 +0000
Subject: [PATCH 44/60] fix: inference must refuse rules that refer to unknown
 tags

---
 src/fis.cpp         | 27 +++++++++++++++++++++------
 src/include/fis.hpp |  4 ++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index f299c9e..af2ff14 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -291,6 +291,17 @@ fis::fuzzyOperator fis::instance::getFuzzOperator( void ) noexcept
     return oper;
 }
 /*============================================================================*/
+bool fis::instance::validTags( const fis::rules io,
+                               const size_t nIO,
+                               const fis::rules set,
+                               const size_t nSets ) noexcept
+{
+    const int32_t s = ( set < 0 ) ? -static_cast<int32_t>( set ) : static_cast<int32_t>( set );
+
+    return ( io >= 0 ) && ( static_cast<size_t>( io ) < nIO ) &&
+           ( s > 0 ) && ( static_cast<size_t>( s ) <= nSets );
+}
+/*============================================================================*/
 size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
 {
     fis::rules inIndex, MFInIndex, connector;
@@ -299,15 +310,16 @@ size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
     inIndex = xRules[ i ];
     /*cstat -CERT-INT30-C_a*/
     MFInIndex = xRules[ i + 1U ];
-    connector = xRules[ i + 2U ];
     /*cstat +CERT-INT30-C_a*/
-    op = getFuzzOperator();
-    rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
-
-    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) > nInputs ) ) {
+    if ( !validTags( inIndex, nInputs, MFInIndex, nMFInputs ) ) {
         i = INFERENCE_ERROR;
     }
     else {
+        /*cstat -CERT-INT30-C_a*/
+        connector = xRules[ i + 2U ];
+        /*cstat +CERT-INT30-C_a*/
+        op = getFuzzOperator();
+        rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
         if ( ( Q_FIS_AND == connector ) || ( Q_FIS_OR == connector ) ) {
             lastConnector = connector;
             inferenceState = &fis::instance::inferenceAntecedent;
@@ -329,6 +341,9 @@ size_t fis::instance::inferenceReachEnd( size_t i ) noexcept
 {
     fis::rules connector;
     /*cstat -CERT-INT30-C_a*/
+    if ( !validTags( xRules[ i ], nOutputs, xRules[ i + 1U ], nMFOutputs ) ) {
+        return INFERENCE_ERROR;
+    }
     connector = ( nOutputs > 1U )? xRules[ i + 2U ] : -1;
     /*cstat +CERT-INT30-C_a*/
     i += 2U;
@@ -493,7 +508,7 @@ bool fis::instance::inference( void ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != xRules  ) {
+    if ( ( nullptr != xRules ) && ( nullptr != wi ) ) {
         size_t i = 0U;
 
         if ( Q_FIS_RULES_BEGIN == xRules[ 0 ] ) {
diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 4788981..0690052 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -538,6 +538,10 @@ namespace qlibs {
                         const real_t h ) noexcept;
             static real_t parseFuzzValue( mf * const mfIO,
                                           rules index ) noexcept;
+            static bool validTags( const rules io,
+                                   const size_t nIO,
+                                   const rules set,
+                                   const size_t nSets ) noexcept;
             fuzzyOperator getFuzzOperator( void ) noexcept;
             size_t inferenceAntecedent( size_t i ) noexcept;
             size_t inferenceReachEnd( size_t i ) noexcept;
-- 
2.43.0


From 1214622b768db2e1a21a189287769fab2e0ee72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:24 +0000
Subject: [PATCH 45/60] fix: fixed-point product must report overflow of its
 cross terms

---
 src/fp16.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7a42099..d40be65 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -147,7 +147,8 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
                      const fp16Raw_t y ) noexcept
 {
     fp16Raw_t retValue = overflow;
-    fp16Raw_t a, c, ac, ad_cb, mulH;
+    fp16Raw_t a, c, ac, mulH;
+    int64_t ad_cb;
     uint32_t b, d, bd, tmp, mulL;
 
     a = ( x >> 16 );
@@ -155,9 +156,9 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
     b = static_cast<uint32_t>( x & 0xFFFF );
     d = static_cast<uint32_t>( y & 0xFFFF );
     ac = a*c;
-    ad_cb = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( a )*d ) + ( static_cast<uint32_t>( c )*b ) );
+    ad_cb = ( static_cast<int64_t>( a )*static_cast<int64_t>( d ) ) + ( static_cast<int64_t>( c )*static_cast<int64_t>( b ) );
     bd = b*d;
-    mulH = ac + ( ad_cb >> 16 );
+    mulH = ac + static_cast<fp16Raw_t>( ad_cb >> 16 );
     tmp = static_cast<uint32_t>( ad_cb ) << 16;
     mulL = bd + tmp;
     if ( mulL < bd ) {
-- 
2.43.0


From 9d0d8b4b8927ea567297bb8f27921319eec1fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:24 +0000
Subject: [PATCH 46/60] fix: fixed-point rounding must return the nearest
 integer

---
 src/include/fp16.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index 04de4ee..60e2065 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -322,7 +322,9 @@ namespace qlibs {
             */
             static inline fp16 rounding( const fp16 &x ) noexcept
             {
-                return fp16( { x.raw() + one } );
+                /*cstat -MISRAC++2008-5-0-9*/
+                return fp16( { static_cast<fp16Raw_t>( static_cast<uint32_t>( add( x.raw(), one_half ) ) & integer_mask ) } );
+                /*cstat +MISRAC++2008-5-0-9*/
             }
 
             /**
-- 
2.43.0


From 21593b4fd3adc55d5f21b1d9f710c374f99decbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:24 +0000
Subject: [PATCH 47/60] fix: the absolute value of the smallest fixed-point
 number is representable

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index d40be65..31b0c1b 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -251,7 +251,7 @@ fp16Raw_t fp16::absolute( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue;
 
-    if ( x == Min ) {
+    if ( x == overflow ) {
         retValue = overflow;
     }
     else {
-- 
2.43.0


From b69814a70e58b37438c87e4a26123b27e901e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:24 +0000
Subject: [PATCH 48/60] fix: conversion of large fixed-point numbers to
 integers must not overflow

---
 src/fp16.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 31b0c1b..e2d4546 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -41,11 +41,17 @@ int fp16::toInt( const fp16 &x ) noexcept
     int retValue;
 
     if ( flag_rounding ) {
-        if ( x.value >= 0 ) {
-            retValue = ( x.value + ( one >> 1 ) ) / one;
+        const fp16Raw_t rem = x.value % one;
+
+        retValue = x.value / one;
+        if ( rem >= one_half ) {
+            ++retValue;
+        }
+        else if ( rem <= -one_half ) {
+            --retValue;
         }
         else {
-            retValue = ( x.value - ( one >> 1 ) ) / one;
+            /*nothing to do*/
         }
     }
     else {
-- 
2.43.0


From de36c9794283c9887be51c4e37e2e4e9252e994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:24 +0000
Subject: [PATCH 49/60] fix: conversion of floats to fixed-point must not lose
 the last bit

---
 src/fp16.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index e2d4546..42cdd6e 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -85,10 +85,20 @@ fp16Raw_t fp16::fromFloat( const float x ) noexcept
     float f_value;
     /*cstat -CERT-FLP36-C -CERT-FLP34-C*/
     f_value = x * static_cast<float>( one );
+    fp16Raw_t retValue = static_cast<fp16Raw_t>( f_value );
     if ( flag_rounding ) {
-        f_value += ( f_value >= 0.0F ) ? 0.5F : -0.5F;
+        const float rem = f_value - static_cast<float>( retValue );
+        if ( rem >= 0.5F ) {
+            ++retValue;
+        }
+        else if ( rem <= -0.5F ) {
+            --retValue;
+        }
+        else {
+            /*nothing to do*/
+        }
     }
-    return static_cast<fp16Raw_t>( f_value );
+    return retValue;
     /*cstat +CERT-FLP36-C +CERT-FLP34-C*/
 }
 /*============================================================================*/
-- 
2.43.0


From f88c95f2938daa202a0382bc4caa21f671368f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:24 +0000
Subject: [PATCH 50/60] fix: ceiling of fixed-point numbers must not overflow a
 signed integer

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 42cdd6e..70f8b6d 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -282,7 +282,7 @@ fp16Raw_t fp16::ceil( fp16Raw_t x ) noexcept
     const fp16Raw_t i = x & static_cast<fp16Raw_t>( integer_mask );
     const fp16Raw_t f = x & static_cast<fp16Raw_t>( fraction_mask );
 
-    return ( 0 != f ) ? i + one : i;
+    return ( 0 != f ) ? add( i, one ) : i;
 }
 /*============================================================================*/
 fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
-- 
2.43.0


From 29260c290b88d2542f7735d7069df95c728b90fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:24 +0000
Subject: [PATCH 51/60] fix: fixed-point square root of zero is zero and of
 negative numbers overflow

---
 src/fp16.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 70f8b6d..0d2fd7c 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -287,7 +287,7 @@ fp16Raw_t fp16::ceil( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
 {
-    fp16Raw_t retValue = overflow;
+    fp16Raw_t retValue = ( 0 == x ) ? 0 : overflow;
 
     if ( x > 0 ) {
         uint32_t bit;
@@ -328,9 +328,9 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-    }
-    if ( ( flag_rounding ) && ( x > retValue ) ) {
-        ++retValue;
+        if ( ( flag_rounding ) && ( x > retValue ) ) {
+            ++retValue;
+        }
     }
 
     return static_cast<fp16Raw_t>( retValue );
-- 
2.43.0


From 92f4a52da73068666ac225534732b19c82eddac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:53 +0000
Subject: [PATCH 52/60] fix: fixed-point square root must not compare its
 wrapped remainder as signed

---
 src/fp16.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 0d2fd7c..aebf8c2 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -291,49 +291,51 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
 
     if ( x > 0 ) {
         uint32_t bit;
+        uint32_t num = static_cast<uint32_t>( x );
+        uint32_t root = 0U;
         uint8_t n;
 
-        retValue = 0;
         /*cstat -MISRAC++2008-5-0-3*/
         bit = ( 0 != ( x & static_cast<fp16Raw_t>( 4293918720 ) ) ) ? 1073741824U : 262144U;
         /*cstat +MISRAC++2008-5-0-3*/
-        while ( bit > static_cast<uint32_t>( x ) ) {
+        while ( bit > num ) {
             bit >>= 2U;
         }
 
         for ( n = 0U ; n < 2U ; ++n ) {
             while ( 0U != bit ) {
-                if ( x >= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit ) ) {
-                    x -= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit );
-                    retValue = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( retValue ) >> 1U ) + bit );
+                if ( num >= ( root + bit ) ) {
+                    num -= ( root + bit );
+                    root = ( root >> 1U ) + bit;
                 }
                 else {
-                    retValue = ( retValue >> 1 );
+                    root >>= 1U;
                 }
                 bit >>= 2U;
             }
 
             if ( 0U == n ) {
-                if ( x > 65535 ) {
-                    x -= retValue;
-                    x = ( x << 16 ) - one_half;
-                    retValue = ( retValue << 16 ) + one_half;
+                if ( num > 65535U ) {
+                    num -= root;
+                    num = ( num << 16U ) - static_cast<uint32_t>( one_half );
+                    root = ( root << 16U ) + static_cast<uint32_t>( one_half );
                 }
                 else {
-                    x <<= 16;
-                    retValue <<= 16;
+                    num <<= 16U;
+                    root <<= 16U;
                 }
                 /*cstat -ATH-shift-bounds -MISRAC++2008-5-8-1 -CERT-INT34-C_b*/
                 bit = 1U << 14U;
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-        if ( ( flag_rounding ) && ( x > retValue ) ) {
-            ++retValue;
+        if ( ( flag_rounding ) && ( num > root ) ) {
+            ++root;
         }
+        retValue = static_cast<fp16Raw_t>( root );
     }
 
-    return static_cast<fp16Raw_t>( retValue );
+    return retValue;
 }
 /*============================================================================*/
 fp16Raw_t fp16::exp( fp16Raw_t x ) noexcept
-- 
2.43.0


From 4ced24bef5980a2b8b09f6b05be327d4ff2f25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:17 +0000
Subject: [PATCH 53/60] fix: fixed-point hyperbolic sine of zero is zero

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index aebf8c2..c9d3b18 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -661,7 +661,7 @@ fp16Raw_t fp16::sinh( fp16Raw_t x ) noexcept
     fp16Raw_t epx, enx;
 
     if ( 0 == x ) {
-        retValue = one;
+        retValue = 0;
     }
     else if ( x >= exp_max ) {
         retValue = Max;
-- 
2.43.0


From ff77481ccfaaf902ce0591f5a1348078aae82611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:17 +0000
Subject: [PATCH 54/60] fix: fixed-point arc sine at the ends of its domain
 must not divide by zero

---
 src/fp16.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index c9d3b18..251232b 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -620,8 +620,13 @@ fp16Raw_t fp16::asin( fp16Raw_t x ) noexcept
 
     if ( ( x <= one ) && ( x >= -one ) ) {
         retValue = one - mul( x, x );
-        retValue = div( x, sqrt( retValue ) );
-        retValue = atan( retValue );
+        if ( 0 == retValue ) {
+            retValue = ( x > 0 ) ? f_pi_2 : -f_pi_2;
+        }
+        else {
+            retValue = div( x, sqrt( retValue ) );
+            retValue = atan( retValue );
+        }
     }
 
     return retValue;
-- 
2.43.0


From 06853113dcd9ffdac0290d5f3d5b39cba6bff5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:17 +0000
Subject: [PATCH 55/60] fix: fixed-point log2 of numbers whose inverse does not
 fit

---
 src/fp16.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 251232b..01e9cc9 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -478,6 +478,10 @@ fp16Raw_t fp16::log2( fp16Raw_t x ) noexcept
                 const fp16Raw_t f16 = 1048576;
                 retValue = -f16;
             }
+            else if ( 2 == x ) {
+                const fp16Raw_t f15 = 983040;
+                retValue = -f15;
+            }
             else {
                 fp16Raw_t inv;
                 inv = div( one, x );
-- 
2.43.0


From ccd923944a8fee56aa1f89bf507e7613d386616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:17 +0000
Subject: [PATCH 56/60] fix: sign and domain of fixed-point powers of negative
 numbers

---
 src/fp16.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 01e9cc9..3882ac8 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -751,12 +751,16 @@ fp16Raw_t fp16::pow( fp16Raw_t x,
         retValue = powi( x, y );
     }
     else {
-        fp16Raw_t tmp;
-        tmp = mul( y, log( absolute( x ) ) );
-        if ( overflow != tmp ) {
-            retValue = exp( tmp );
-            if ( x < 0 ) {
-                retValue = -retValue;
+        const bool isInteger = ( 0U == ( static_cast<uint32_t>( y ) & fraction_mask ) );
+
+        if ( ( x >= 0 ) || isInteger ) {
+            fp16Raw_t tmp;
+            tmp = mul( y, log( absolute( x ) ) );
+            if ( overflow != tmp ) {
+                retValue = exp( tmp );
+                if ( ( x < 0 ) && ( 0U != ( static_cast<uint32_t>( y ) & static_cast<uint32_t>( one ) ) ) ) {
+                    retValue = -retValue;
+                }
             }
         }
     }
-- 
2.43.0


From 9d3fa9d5b40ea0300b06a01718d2dbd670c89900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:16 +0000
Subject: [PATCH 57/60] fix: fixed-point sine must not use overflowed powers

---
 src/fp16.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 3882ac8..3886e08 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -551,8 +551,19 @@ fp16Raw_t fp16::wrapTo180( fp16Raw_t x ) noexcept
 fp16Raw_t fp16::sin( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue, x2;
+    const fp16Raw_t f_pi = 205887;
 
     x = wrapToPi( x );
+    /*the powers of x overflow outside of [-pi/2, pi/2]*/
+    if ( x > f_pi_2 ) {
+        x = f_pi - x;
+    }
+    else if ( x < -f_pi_2 ) {
+        x = -f_pi - x;
+    }
+    else {
+        /*nothing to do*/
+    }
     x2 = mul( x ,x );
     retValue = x;
     x = mul( x, x2 );
-- 
2.43.0


From e22cc3e4a0e65d6f79a6d11ab43e75cc03a6bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:12 +0000
Subject: [PATCH 58/60] fix: cubic root of negative numbers must use the
 magnitude

---
 src/ffmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 8aa233a..e2a6a70 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -248,13 +248,14 @@ static float compute_cbrt( float x , bool r )
     float retVal, y = 0.0F, c, d;
     const float k[ 3 ] = { 1.752319676F, 1.2509524245F, 0.5093818292F };
     constexpr float c13 = 1.0F/3.0F;
-    uint32_t i = bit_cast<uint32_t>( x );
+    uint32_t i;
     bool neg = false;
 
     if ( x < 0.0F ) {
         x = -x;
         neg = true;
     }
+    i = bit_cast<uint32_t>( x );
     i = 0x548C2B4BU - ( i/3U );
     y = bit_cast<float>( i );
     c = x*y*y*y;
-- 
2.43.0


From 1e4fee0185a01fd76239ffab28c7e1e9296fd600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:12 +0000
Subject: [PATCH 59/60] fix: error function must be odd

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index e2a6a70..a6fe531 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -833,7 +833,7 @@ float ffmath::erf( float x )
     }
     else {
         x = ffmath::exp( 3.472034176F*x );
-        retVal = ( x/( ( absolute( x ) + 1.0F )*2.0F ) ) - 1.0F;
+        retVal = ( ( x/( absolute( x ) + 1.0F ) )*2.0F ) - 1.0F;
     }
 
     return retVal;
-- 
2.43.0


From a685a613d6fb0d66624f00286208db37de500307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:12 +0000
Subject: [PATCH 60/60] fix: hyperbolic tangent of large negative numbers is -1

---
 src/ffmath.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index a6fe531..bfa3db0 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -651,8 +651,10 @@ float ffmath::cosh( float x )
 /*============================================================================*/
 float ffmath::tanh( float x )
 {
-    x = ffmath::exp( -2.0F*x );
-    return ( 1.0F - x )/( 1.0F + x );
+    const float e = ffmath::exp( -2.0F*absolute( x ) );
+    const float y = ( 1.0F - e )/( 1.0F + e );
+
+    return ( x < 0.0F ) ? -y : y;
 }
 /*============================================================================*/
 float ffmath::asinh( float x )
-- 
2.43.0

