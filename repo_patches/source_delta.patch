From 2526a55faebac08bf33ac0e58178447536cb1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:17 +0000
Subject: [PATCH 01/87] fix: single-tap delay line reads past its storage

With one tap the write and read pointers coincide, so index 0 was taken for a
wrapped position and rd[1] was read, one element past the area.
---
 src/tdl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdl.cpp b/src/tdl.cpp
index fda5ca5..9ea5128 100644
--- a/src/tdl.cpp
+++ b/src/tdl.cpp
@@ -54,7 +54,7 @@ real_t tdl::getRecent( void ) const noexcept
 real_t tdl::getAtIndex( const size_t i ) const noexcept
 {
     /*cstat -MISRAC++2008-5-0-3*/
-    return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+    return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                       : *( rd - i );
     /*cstat +MISRAC++2008-5-0-3*/
 }
@@ -71,7 +71,7 @@ const real_t& tdl::operator[]( int index ) noexcept
     /*cstat -MISRAC++2008-6-6-5*/
     if ( ( index >= 0 ) && ( i < itemCount ) ) {
         /*cstat -MISRAC++2008-5-0-3*/
-        return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
+        return ( ( wr > rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
                                                           : *( rd - i );
         /*cstat +MISRAC++2008-5-0-3*/
     }
-- 
2.43.0


From c3a93c374dad131efa1966c5a004294d5dc2c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:25 +0000
Subject: [PATCH 02/87] fix: zero-width bit-field accesses shift by 32

readUINTn/writeUINTn with xBits = 0 shifted a 32-bit value by 32 (undefined);
on x86 the read returned 32 bits. Reject a zero width like one above 32.
---
 src/bitfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index ae846b5..dbaa998 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -115,7 +115,7 @@ uint32_t bitfield::readUINTn( const size_t index,
 {
     uint32_t retValue = 0U;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         if ( 1U == xBits ) {
             retValue = static_cast<uint32_t>( readBit( index ) );
         }
@@ -137,7 +137,7 @@ bool bitfield::writeUINTn( const size_t index,
 {
     bool retValue = false;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
-- 
2.43.0


From cd7bf25955aa2b57e0c0f498b5c0441663fbfaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:09 +0000
Subject: [PATCH 03/87] fix: sort with a comparator does not sort

The partition compared each element with array[ pivotIndex ], which moves as
the partition grows, instead of with the pivot value.
---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 372bd5f..7cc450c 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -118,7 +118,7 @@ namespace qlibs {
 
                     for ( int i = start; i < end; ++i ) {
                         if ( nullptr != comp ) {
-                            if ( comp( array[ i ], array[ pivotIndex ] ) ) {
+                            if ( comp( array[ i ], pivotValue ) ) {
                                 algorithm::swap( array[ i ], array[ pivotIndex ] );
                                 ++pivotIndex;
                             }
-- 
2.43.0


From 00056ad29d711b43d4c09cd10c511176019f7974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:18 +0000
Subject: [PATCH 04/87] fix: left rotation by a multiple of the length runs out
 of bounds

With r = 0 the sub-range end r - 1 wrapped to SIZE_MAX and reverse() swapped
elements far outside the array.
---
 src/include/algorithm.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 7cc450c..ce38f03 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -188,9 +188,11 @@ namespace qlibs {
                     r = static_cast<size_t>( -k );
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
-                    algorithm::reverse( array, 0U, r - 1U );
-                    algorithm::reverse( array, r, n - 1U );
-                    algorithm::reverse( array, 0U, n - 1U );
+                    if ( r > 0U ) {
+                        algorithm::reverse( array, 0U, r - 1U );
+                        algorithm::reverse( array, r, n - 1U );
+                        algorithm::reverse( array, 0U, n - 1U );
+                    }
                 }
             }
         }
-- 
2.43.0


From a080874e148c763c181291c0103520f6f70e59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:27 +0000
Subject: [PATCH 05/87] fix: replace and replace_if stop at the first match

Both are documented to replace every matching element of the range.
---
 src/include/algorithm.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index ce38f03..cf855fd 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -329,7 +329,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( old_value == array[ i ] ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
@@ -356,7 +355,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
-- 
2.43.0


From 41e7a979d8eaeeaec8d07a46fa4d26dc446a9761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:37 +0000
Subject: [PATCH 06/87] fix: find_if returns the last match instead of the
 first

---
 src/include/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index cf855fd..9ff376e 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -413,6 +413,7 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     found = &array[ i ];
+                    break;
                 }
             }
             return found;
-- 
2.43.0


From 5a21f8c017a6a2b1f94438387dbd73e26e2a2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:18 +0000
Subject: [PATCH 07/87] fix: fp16 square root of zero and of negative values

---
 src/fp16.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7a42099..6d3e635 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -272,7 +272,7 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue = overflow;
 
-    if ( x > 0 ) {
+    if ( x >= 0 ) {
         uint32_t bit;
         uint8_t n;
 
@@ -311,9 +311,9 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-    }
-    if ( ( flag_rounding ) && ( x > retValue ) ) {
-        ++retValue;
+        if ( ( flag_rounding ) && ( x > retValue ) ) {
+            ++retValue;
+        }
     }
 
     return static_cast<fp16Raw_t>( retValue );
-- 
2.43.0


From 0902977297489899a10f92f50093823936553931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:27 +0000
Subject: [PATCH 08/87] fix: fp16 rounding adds one instead of rounding

---
 src/include/fp16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index 04de4ee..82e7330 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -322,7 +322,7 @@ namespace qlibs {
             */
             static inline fp16 rounding( const fp16 &x ) noexcept
             {
-                return fp16( { x.raw() + one } );
+                return floor( fp16( { add( x.raw(), one_half ) } ) );
             }
 
             /**
-- 
2.43.0


From 16e68d186f98ca6544c7663f107cd10e168571b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:38 +0000
Subject: [PATCH 09/87] fix: fp16 to int conversion overflows close to the
 range limits

---
 src/fp16.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 6d3e635..0c2ee56 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -42,10 +42,10 @@ int fp16::toInt( const fp16 &x ) noexcept
 
     if ( flag_rounding ) {
         if ( x.value >= 0 ) {
-            retValue = ( x.value + ( one >> 1 ) ) / one;
+            retValue = ( x.value / one ) + ( ( ( x.value % one ) >= one_half ) ? 1 : 0 );
         }
         else {
-            retValue = ( x.value - ( one >> 1 ) ) / one;
+            retValue = ( x.value / one ) - ( ( ( x.value % one ) <= -one_half ) ? 1 : 0 );
         }
     }
     else {
-- 
2.43.0


From 1c5b91a84f177df3c6e58214eaa395460d5d76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:47 +0000
Subject: [PATCH 10/87] fix: fp16 hyperbolic sine of zero is one

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 0c2ee56..db9ad26 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -642,7 +642,7 @@ fp16Raw_t fp16::sinh( fp16Raw_t x ) noexcept
     fp16Raw_t epx, enx;
 
     if ( 0 == x ) {
-        retValue = one;
+        retValue = 0;
     }
     else if ( x >= exp_max ) {
         retValue = Max;
-- 
2.43.0


From cb438752b182de9dc143d8a88c98bfa310ccc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:56 +0000
Subject: [PATCH 11/87] fix: fp16 absolute value of the most negative value
 overflows

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index db9ad26..280a2a0 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -250,7 +250,7 @@ fp16Raw_t fp16::absolute( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue;
 
-    if ( x == Min ) {
+    if ( overflow == x ) {
         retValue = overflow;
     }
     else {
-- 
2.43.0


From 9e65ea89750f27929f4fc3472139e0910d51d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:06 +0000
Subject: [PATCH 12/87] fix: fp16 arc tangent is wrong for large operands and
 at the origin

---
 src/fp16.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 280a2a0..2315f89 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -564,13 +564,20 @@ fp16Raw_t fp16::tan( fp16Raw_t x ) noexcept
 fp16Raw_t fp16::atan2( fp16Raw_t y,
                        fp16Raw_t x ) noexcept
 {
-    fp16Raw_t absY, mask, angle, r, r_3;
+    fp16Raw_t absY, angle, r, r_3;
     const fp16Raw_t QFP16_0_981689 = 0x0000FB50;
     const fp16Raw_t QFP16_0_196289 = 0x00003240;
     static const fp16Raw_t f_3pi_div_4 = 154415; /*3*pi/4*/
 
-    mask = ( y >> ( sizeof(fp16Raw_t)*7U ) );
-    absY = ( y + mask ) ^ mask;
+    if ( ( 0 == x ) && ( 0 == y ) ) {
+        return 0;
+    }
+    absY = absolute( y );
+    if ( ( absY > ( Max/2 ) ) || ( absolute( x ) > ( Max/2 ) ) ) {
+        /*keep the ratio but avoid the overflow of the sums below*/
+        absY /= 2;
+        x /= 2;
+    }
     if ( x >= 0 ) {
         r = div( ( x - absY ), ( x + absY ) );
         const fp16Raw_t f_pi_4 = 51471;
-- 
2.43.0


From 9314c558dcc0011d821931e7d13a9ac2facdf5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:15 +0000
Subject: [PATCH 13/87] fix: fp16 arc sine and arc cosine are wrong at -1 and 1

---
 src/fp16.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 2315f89..73115b2 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -608,8 +608,7 @@ fp16Raw_t fp16::asin( fp16Raw_t x ) noexcept
 
     if ( ( x <= one ) && ( x >= -one ) ) {
         retValue = one - mul( x, x );
-        retValue = div( x, sqrt( retValue ) );
-        retValue = atan( retValue );
+        retValue = atan2( x, sqrt( retValue ) );
     }
 
     return retValue;
-- 
2.43.0


From 01e59cfe887ed656c7dcdbaa46b29f85868fd387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:24 +0000
Subject: [PATCH 14/87] fix: fp16 cosine overflows for angles close to the
 upper limit

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 73115b2..4c9cc46 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -548,7 +548,7 @@ fp16Raw_t fp16::sin( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::cos( fp16Raw_t x ) noexcept
 {
-    return sin( x + f_pi_2 );
+    return sin( wrapToPi( x ) + f_pi_2 );
 }
 /*============================================================================*/
 fp16Raw_t fp16::tan( fp16Raw_t x ) noexcept
-- 
2.43.0


From a9ce2c153675df1fa33822f4d401976a75e76ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:35 +0000
Subject: [PATCH 15/87] fix: fp16 base 2 logarithm of tiny values overflows

---
 src/fp16.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 4c9cc46..3da9fb6 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -455,15 +455,13 @@ fp16Raw_t fp16::log2( fp16Raw_t x ) noexcept
 
     if ( x > 0 ) {
         if ( x < one ) {
-            if ( 1 == x ) {
-                const fp16Raw_t f16 = 1048576;
-                retValue = -f16;
-            }
-            else {
-                fp16Raw_t inv;
-                inv = div( one, x );
-                retValue = -log2i( inv );
+            int scaling = 0;
+
+            while ( x < one ) {
+                x <<= 1;
+                ++scaling;
             }
+            retValue = log2i( x ) - fromInt( scaling );
         }
         else {
             retValue = log2i( x );
-- 
2.43.0


From fef1f7d5fc0b0992ea19180649443a49ff4603a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:44 +0000
Subject: [PATCH 16/87] fix: fp16 zero and even negative powers of negative
 bases have the wrong sign

---
 src/fp16.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 3da9fb6..56abab5 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -731,7 +731,8 @@ fp16Raw_t fp16::pow( fp16Raw_t x,
         tmp = mul( y, log( absolute( x ) ) );
         if ( overflow != tmp ) {
             retValue = exp( tmp );
-            if ( x < 0 ) {
+            const bool isEvenPower = ( 0U == ( static_cast<uint32_t>( y ) & ( ( fraction_mask << 1U ) | 1U ) ) );
+            if ( ( x < 0 ) && ( !isEvenPower ) ) {
                 retValue = -retValue;
             }
         }
-- 
2.43.0


From 6d0a5c5328d9a2cb7c813e39f9cde53c35911699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:52 +0000
Subject: [PATCH 17/87] fix: fp16 from float is off by one for exactly
 representable values

---
 src/fp16.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 56abab5..c5e6c14 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -76,14 +76,8 @@ fp16Raw_t fp16::fromInt( const int x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::fromFloat( const float x ) noexcept
 {
-    float f_value;
-    /*cstat -CERT-FLP36-C -CERT-FLP34-C*/
-    f_value = x * static_cast<float>( one );
-    if ( flag_rounding ) {
-        f_value += ( f_value >= 0.0F ) ? 0.5F : -0.5F;
-    }
-    return static_cast<fp16Raw_t>( f_value );
-    /*cstat +CERT-FLP36-C +CERT-FLP34-C*/
+    /*adding the half in single precision alters the values above 2^23*/
+    return fromDouble( static_cast<double>( x ) );
 }
 /*============================================================================*/
 fp16Raw_t fp16::fromDouble( const double x ) noexcept
-- 
2.43.0


From a2887e082d689f53cbf31b61c239cd5b22febeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:39 +0000
Subject: [PATCH 18/87] fix: fp16 square root of large values is off by up to
 256

---
 src/fp16.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index c5e6c14..0f72671 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -267,50 +267,51 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
     fp16Raw_t retValue = overflow;
 
     if ( x >= 0 ) {
-        uint32_t bit;
+        uint32_t bit, num, result = 0U;
         uint8_t n;
 
-        retValue = 0;
+        num = static_cast<uint32_t>( x );
         /*cstat -MISRAC++2008-5-0-3*/
-        bit = ( 0 != ( x & static_cast<fp16Raw_t>( 4293918720 ) ) ) ? 1073741824U : 262144U;
+        bit = ( 0U != ( num & 4293918720U ) ) ? 1073741824U : 262144U;
         /*cstat +MISRAC++2008-5-0-3*/
-        while ( bit > static_cast<uint32_t>( x ) ) {
+        while ( bit > num ) {
             bit >>= 2U;
         }
 
         for ( n = 0U ; n < 2U ; ++n ) {
             while ( 0U != bit ) {
-                if ( x >= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit ) ) {
-                    x -= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit );
-                    retValue = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( retValue ) >> 1U ) + bit );
+                if ( num >= ( result + bit ) ) {
+                    num -= result + bit;
+                    result = ( result >> 1U ) + bit;
                 }
                 else {
-                    retValue = ( retValue >> 1 );
+                    result >>= 1U;
                 }
                 bit >>= 2U;
             }
 
             if ( 0U == n ) {
-                if ( x > 65535 ) {
-                    x -= retValue;
-                    x = ( x << 16 ) - one_half;
-                    retValue = ( retValue << 16 ) + one_half;
+                if ( num > 65535U ) {
+                    num -= result;
+                    num = ( num << 16U ) - static_cast<uint32_t>( one_half );
+                    result = ( result << 16U ) + static_cast<uint32_t>( one_half );
                 }
                 else {
-                    x <<= 16;
-                    retValue <<= 16;
+                    num <<= 16U;
+                    result <<= 16U;
                 }
                 /*cstat -ATH-shift-bounds -MISRAC++2008-5-8-1 -CERT-INT34-C_b*/
                 bit = 1U << 14U;
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-        if ( ( flag_rounding ) && ( x > retValue ) ) {
-            ++retValue;
+        if ( ( flag_rounding ) && ( num > result ) ) {
+            ++result;
         }
+        retValue = static_cast<fp16Raw_t>( result );
     }
 
-    return static_cast<fp16Raw_t>( retValue );
+    return retValue;
 }
 /*============================================================================*/
 fp16Raw_t fp16::exp( fp16Raw_t x ) noexcept
-- 
2.43.0


From 123c50893d10f515588beb608bbf4c2da54b10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:19 +0000
Subject: [PATCH 19/87] fix: fp16 product close to the range limits is reported
 as overflow

---
 src/fp16.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 0f72671..15dd887 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -141,17 +141,18 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
                      const fp16Raw_t y ) noexcept
 {
     fp16Raw_t retValue = overflow;
-    fp16Raw_t a, c, ac, ad_cb, mulH;
+    fp16Raw_t a, c, ac, mulH;
     uint32_t b, d, bd, tmp, mulL;
+    int64_t ad_cb; /*the sum of the cross products needs more than 32 bits*/
 
     a = ( x >> 16 );
     c = ( y >> 16 );
     b = static_cast<uint32_t>( x & 0xFFFF );
     d = static_cast<uint32_t>( y & 0xFFFF );
     ac = a*c;
-    ad_cb = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( a )*d ) + ( static_cast<uint32_t>( c )*b ) );
+    ad_cb = ( static_cast<int64_t>( a )*d ) + ( static_cast<int64_t>( c )*b );
     bd = b*d;
-    mulH = ac + ( ad_cb >> 16 );
+    mulH = ac + static_cast<fp16Raw_t>( ad_cb >> 16 );
     tmp = static_cast<uint32_t>( ad_cb ) << 16;
     mulL = bd + tmp;
     if ( mulL < bd ) {
-- 
2.43.0


From cfd85e1354aa98d6a3c982cc3a2373f998688d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:53 +0000
Subject: [PATCH 20/87] fix: fp16 sine drops accuracy because a power of the
 angle overflows

---
 src/fp16.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 15dd887..866baf6 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -534,8 +534,8 @@ fp16Raw_t fp16::sin( fp16Raw_t x ) noexcept
     retValue -= ( x / 5040 ); /*x^7/7!*/
     x = mul( x, x2 );
     retValue += ( x / 362880 ); /*x^9/9!*/
-    x = mul( x, x2);
-    retValue -= ( x / 39916800 ); /*x^11/11!*/
+    x = mul( x / 110, x2 ); /*x^11 itself overflows for angles above 2.57*/
+    retValue -= ( x / 362880 ); /*x^11/11!*/
 
     return retValue;
 }
-- 
2.43.0


From f655004c20e32b177c5eedd20fe038b444bfef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:10 +0000
Subject: [PATCH 21/87] fix: moving window filter (MWM1) can never be set up

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 4a39430..fc2e21f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -87,7 +87,7 @@ bool smootherMWM1::setup( real_t *window,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) ) {
+    if ( ( nullptr != window ) && ( w_size > 0U ) ) {
         w = window;
         wsize = w_size;
         retValue = reset();
-- 
2.43.0


From 8eb8c6aed590cbc448238ab13fc7cd9ac1e88671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:19 +0000
Subject: [PATCH 22/87] fix: outlier removal filter (MOR2) returns the outlier

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index fc2e21f..7cf053f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -210,7 +210,7 @@ real_t smootherMOR2::smooth( const real_t x )
     m = sum/wsize;
     insertSample( xx );
 
-    return x;
+    return xx;
 }
 /*============================================================================*/
 bool smootherGMWF::setup( const real_t sg,
-- 
2.43.0


From cb853660d518fc8f27ff9b77d8a12981fe5716c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:27 +0000
Subject: [PATCH 23/87] fix: adaptive filter with momentum reads past its
 weights

---
 src/smoother.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 7cf053f..17be5dc 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -403,11 +403,9 @@ real_t smootherALNF::smooth( const real_t x )
     }
     xe = discreteSystem::updateFIR( xx, n, x, w );
     if ( nullptr != w_1 ) {
-        real_t * const ww_1 = &w[ n ];
-
         for ( size_t i = 0U ; i < n ; ++i ) {
             const real_t w0 = w[ i ];
-            const real_t w1 = ww_1[ i ];
+            const real_t w1 = w_1[ i ];
 
             w[ i ] += ( alpha*( x - xe )*xx[ i ] ) + ( mu*( w0 - w1 ) );
             w_1[ i ] = w0;
-- 
2.43.0


From 16c7556c69363a3d3a60ad9acd8d0a3bd35d834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:34 +0000
Subject: [PATCH 24/87] fix: adaptive filter without momentum can never be set
 up

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 17be5dc..c303f05 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m > 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From 3cfaab0cbc8387f48fc3168b2b773a99056ffe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:44 +0000
Subject: [PATCH 25/87] fix: gaussian and adaptive filters accept null
 coefficient arrays

---
 src/smoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index c303f05..21380e8 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -222,7 +222,7 @@ bool smootherGMWF::setup( const real_t sg,
     bool retValue = false;
     const size_t ws = wk_size;
     /*cstat -CERT-FLP36-C*/
-    if ( ( nullptr != window ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != kernel ) && ( wk_size > 0U ) && ( c < static_cast<real_t>( ws ) ) && ( sg > 0.0_re ) ) {
         real_t r, sum = 0.0_re;
         size_t i;
         real_t l, center;
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( nullptr != weights ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From 9a7aee1869cd9cbabca71b299fde5379c3019ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:53 +0000
Subject: [PATCH 26/87] fix: discrete system normalizes with the coefficient
 counts swapped

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index bdfc3c1..3da15e3 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -141,7 +141,7 @@ bool discreteSystem::setup( real_t *num,
         xd = x;
         a = &den[ 1 ];
         type = LTISYS_TYPE_DISCRETE;
-        normalizeTransferFunction( num, den, n_a, n_b );
+        normalizeTransferFunction( num, den, n_b, n_a );
         (void)setInitStates();
         retValue = true;
     }
-- 
2.43.0


From f3247e588f1d3b519d3f8032cbaad237cbbd1b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:01 +0000
Subject: [PATCH 27/87] fix: discrete system reads past the numerator when the
 denominator is longer

---
 src/ltisys.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 3da15e3..de44010 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -152,12 +152,18 @@ bool discreteSystem::setup( real_t *num,
 real_t discreteSystem::update( const real_t u )
 {
     real_t v = u;
+    real_t y = 0.0_re;
 
     /*using direct-form 2*/
     for ( size_t i = 0 ; i < na ; ++i ) {
         v -= a[ i ]*xd[ i ];
     }
-    return updateFIR( xd, n, v, b );
+    (void)updateFIR( xd, n, v );
+    for ( size_t i = 0 ; i < nb ; ++i ) {
+        y += b[ i ]*xd[ i ];
+    }
+
+    return y;
 }
 /*============================================================================*/
 bool continuousSystem::setup( real_t *num,
-- 
2.43.0


From ffc05fce9da518cabaf87990e5ed0dbab91acd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:10 +0000
Subject: [PATCH 28/87] fix: discrete system accepts an empty denominator

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index de44010..1fd0fc7 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -133,7 +133,7 @@ bool discreteSystem::setup( real_t *num,
 {
     bool retValue = false;
 
-    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) ) {
+    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) && ( n_a > 0U ) ) {
         b = num;
         na = n_a - 1U;
         nb = n_b;
-- 
2.43.0


From 4cc371146f77674a049f3c94a8f0cd2bbdbb530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:19 +0000
Subject: [PATCH 29/87] fix: continuous system initial states all take the
 first value

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 1fd0fc7..553cb73 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -198,7 +198,7 @@ bool continuousSystem::setInitStates( const real_t *xi )
     if ( isInitialized() ) {
         if ( nullptr != xi ) {
             for ( size_t i = 0U; i < n ; ++i ) {
-                xc[ i ].init( xi[ 0 ], xi[ 0 ], xi[ 0 ] );
+                xc[ i ].init( xi[ i ], xi[ i ], xi[ i ] );
             }
         }
         else {
-- 
2.43.0


From f0fbd7bb3ebc078e88115596e2b1f84a11981913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:28 +0000
Subject: [PATCH 30/87] fix: continuous system lacks the direct feedthrough
 term

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 553cb73..e6c643e 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -237,7 +237,7 @@ real_t continuousSystem::update( const real_t u )
         /*compute the remaining part of the output*/
     }
     /*get the output of the system*/
-    y += ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ];
+    y += ( ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ] ) + ( b0*u );
 
     return y;
 }
-- 
2.43.0


From fe9e0477a2ba4fd6ce77fa72477b4ec7c1a70568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:38 +0000
Subject: [PATCH 31/87] fix: systems without saturation clip every negative
 output

---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index ee63527..d4451e7 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -189,7 +189,7 @@ namespace qlibs {
             size_t na{ 0U };
             size_t nb{ 0U };
             real_t b0{ 0.0_re };
-            real_t min{ REAL_MIN };
+            real_t min{ -REAL_MAX };
             real_t max{ REAL_MAX };
             void normalizeTransferFunction( real_t *num,
                                             real_t *den,
-- 
2.43.0


From d11f680353d47a104d8f13ac28932bc4e47ec48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:37 +0000
Subject: [PATCH 32/87] fix: PID controller accepts a time step that is not
 positive

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index d38fdef..b25ec87 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -14,7 +14,7 @@ bool pidController::setup( const real_t kc,
 {
     bool retValue = false;
 
-    if ( dt > 0.0_re ) {
+    if ( dT > 0.0_re ) {
         dt = dT;
         isInitialized = true;
         (void)setDerivativeFilter( 0.98_re );
-- 
2.43.0


From 67b6fe1e972ca0317b3bffa73be6efcfadebd759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:47 +0000
Subject: [PATCH 33/87] fix: PID derivative term is biased by the integrator
 history

---
 src/include/pid.hpp | 12 ++++++++++++
 src/pid.cpp         |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/include/pid.hpp b/src/include/pid.hpp
index b661adc..0647e50 100644
--- a/src/include/pid.hpp
+++ b/src/include/pid.hpp
@@ -143,6 +143,7 @@ namespace qlibs {
             real_t alpha, gamma; /*MRAC additive controller parameters*/
             nState m_state; /*MRAC additive controller state*/
             nState b_state; /*Bumpless-transfer state*/
+            nState d_state; /*Derivative state, the weighted error needs its own history*/
             pidAutoTuning *adapt{ nullptr };
             pidMode mode{ pidMode::PID_AUTOMATIC };
             pidDirection dir{ pidDirection::PID_FORWARD };
@@ -182,6 +183,17 @@ namespace qlibs {
                 return setup( g.Kc, g.Ki, g.Kd, dT );
             }
 
+            /**
+            * @brief Set the derivation method used by the derivative term.
+            * @param[in] dm The desired derivation method.
+            * @return none
+            * @see nState::setDerivationMethod()
+            */
+            inline void setDerivationMethod( derivationMethod dm ) noexcept
+            {
+                d_state.setDerivationMethod( dm );
+            }
+
             /**
             * @brief Set the PID control action direction.
             * @param[in] d Desired output direction.
diff --git a/src/pid.cpp b/src/pid.cpp
index b25ec87..f6d1530 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -217,6 +217,7 @@ bool pidController::reset( void ) noexcept
 
     if ( isInitialized ) {
         init(); //internal controller state
+        d_state.init();
         m_state.init();
         b_state.init();
         D = 0.0_re;
@@ -285,7 +286,7 @@ real_t pidController::control( const real_t w,
             kd = ( kd > 0.0_re ) ? -kd : kd;
         }
         e = error( w, y );
-        de = derive( error( w, y, c ) , dt, false );
+        de = d_state.derive( error( w, y, c ), dt );
         ie = integrate( e + u1 , dt );
         D = de + beta*( D - de ); /*derivative filtering*/
         v  = ( kc*error( w, y, b ) ) + ( ki*ie ) + ( kd*D ); /*compute PID action*/
-- 
2.43.0


From 844a130ff38b0b37cdc826e1dc1c3d1d7941ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:55 +0000
Subject: [PATCH 34/87] fix: PID auto-tuning refuses a momentum of zero

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index f6d1530..8daf5f1 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -474,7 +474,7 @@ bool pidController::setAutoTuningParameters( const real_t Mu,
     bool retValue = false;
 
     if ( nullptr != adapt ) {
-        if ( adapt->isValidParam( Mu ) && adapt->isValidParam( Alpha ) && adapt->isValidParam( lambda ) ) { //skipcq : CXX-C2022
+        if ( ( Mu >= 0.0_re ) && ( Mu <= 1.0_re ) && adapt->isValidParam( Alpha ) && adapt->isValidParam( lambda ) ) { //skipcq : CXX-C2022
             adapt->setMemoryFactor( lambda );
             adapt->setMomentum( Mu );
             adapt->setEstimatedControllerSpeed( Alpha );
-- 
2.43.0


From 66029cbf6069ce57e6f401fcd7d7e06a1e4e8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:00 +0000
Subject: [PATCH 35/87] fix: PID anti-windup feedback diverges with a negative
 integral gain

---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index 8daf5f1..d72a969 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -306,7 +306,7 @@ real_t pidController::control( const real_t w,
         sw = ( pidMode::PID_AUTOMATIC == mode ) ? v : m;
         uSat = saturate( sw, sat_Min, sat_Max );
         u = uSat; /*output saturated*/
-        u1 = kw*( u - v ); /*anti-windup feedback*/
+        u1 = ( ki < 0.0_re ) ? kw*( v - u ) : kw*( u - v ); /*anti-windup feedback*/
         if ( nullptr != adapt ) {
             adaptGains( u, y );
         }
-- 
2.43.0


From 6fdd13718dc6cfc6c3990bb723a00c90e4aae710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:53 +0000
Subject: [PATCH 36/87] fix: next-neighbor interpolation skips the first point
 and exact matches

---
 src/interp1.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index a40ecf6..e5577a0 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -39,18 +39,12 @@ real_t interp1::next( const real_t x,
         size_t nearestIndex = tableSize - 1U;
 
         for ( size_t i = 0U ; i < tableSize - 1U ; ++i ) {
-            if ( x < tx[ i + 1U ] ) {
+            if ( x <= tx[ i ] ) {
                 nearestIndex = i;
                 break;
             }
         }
-
-        if ( x >= tx[ tableSize - 1U ] ) {
-            y = ty[ tableSize - 1U ];
-        }
-        else {
-            y = ty[ nearestIndex + 1U ];
-        }
+        y = ty[ nearestIndex ];
     }
 
     return y;
-- 
2.43.0


From 49d80cd32b259d88b9700c87c0e1f56f49df203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:02 +0000
Subject: [PATCH 37/87] fix: sine interpolation always uses the last interval

---
 src/interp1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index e5577a0..89315c6 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -171,6 +171,7 @@ real_t interp1::sine( const real_t x,
                     const real_t y1 = ty[ i];
                     const real_t w = 0.5_re - 0.5_re*ffmath::cos( ffmath::FFP_PI*( x - x0 )/( x1 - x0 ) );
                     y = y0 + w*( y1 - y0 );
+                    break;
                 }
             }
         }
-- 
2.43.0


From 43d66baca1cd48457114d9d17ab3b0bf0c047c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:10 +0000
Subject: [PATCH 38/87] fix: cubic interpolation reads before the table and
 ignores the spacing of its points

---
 src/interp1.cpp | 61 ++++++++++++-------------------------------------
 1 file changed, 15 insertions(+), 46 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 89315c6..183224c 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -186,55 +186,24 @@ real_t interp1::cubic( const real_t x,
 {
     real_t y = ffmath::getNan();
     if ( ( tableSize >= 4U ) && ( nullptr != tx ) && ( nullptr != ty ) ) {
-        if ( x < tx[ 0 ] ) {
-            const real_t x0 = tx[ 0 ];
-            const real_t x1 = tx[ 1 ];
-            const real_t y0 = ty[ 0 ];
-            const real_t y1 = ty[ 1 ];
-            const real_t h = x1 - x0;
-            const real_t t = ( x - x0 )/h;
-            const real_t t2 = t*t;
-            const real_t t3 = t2*t;
+        size_t i = 1U; /*values beyond the endpoints use the first or the last interval*/
 
-            y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                ( t3 - 2.0_re*t2 + t )*h*( y0 - y1 ) +
-                ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
-                ( t3 - t2 )*h*( y1 - y0 );
+        while ( ( i < ( tableSize - 1U ) ) && ( x > tx[ i ] ) ) {
+            ++i;
         }
-        else if ( x > tx[ tableSize - 1U ] ) {
-            const real_t x0 = tx[ tableSize - 2U ];
-            const real_t x1 = tx[ tableSize - 1U ];
-            const real_t y0 = ty[ tableSize - 2U ];
-            const real_t y1 = ty[ tableSize - 1U ];
-            const real_t h = x1 - x0;
-            const real_t t = ( x - x1 )/h;
-            const real_t t2 = t*t;
-            const real_t t3 = t2*t;
+        const real_t y0 = ty[ i - 1U ];
+        const real_t y1 = ty[ i ];
+        const real_t h = tx[ i ] - tx[ i - 1U ];
+        const real_t t = ( x - tx[ i - 1U ] )/h;
+        const real_t t2 = t*t;
+        const real_t t3 = t2*t;
+        const real_t m1 = ( y1 - y0 )/h;
+        const real_t m0 = ( i > 1U ) ? ( y0 - ty[ i - 2U ] )/( tx[ i - 1U ] - tx[ i - 2U ] ) : m1;
 
-            y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y1 +
-                ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ tableSize - 3U ] ) +
-                ( -2.0_re*t3 + 3.0_re*t2 )*y0 +
-                ( t3 - t2 )*h*( y1 - y0 );
-        }
-        else {
-            for ( size_t i = 1U; i < tableSize; ++i ) {
-                if ( x <= tx[ i ] ) {
-                    const real_t x0 = tx[ i - 1U ];
-                    const real_t x1 = tx[ i ];
-                    const real_t y0 = ty[ i - 1U ];
-                    const real_t y1 = ty[ i ];
-                    const real_t h = x1 - x0;
-                    const real_t t = ( x - x0 )/h;
-                    const real_t t2 = t*t;
-                    const real_t t3 = t2*t;
-                    y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                        ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ i - 2U ] ) +
-                        ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
-                        ( t3 - t2 )*h*( y1 - y0 );
-                    break;
-                }
-            }
-        }
+        y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
+            ( t3 - 2.0_re*t2 + t )*h*m0 +
+            ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
+            ( t3 - t2 )*h*m1;
     }
     return y;
 }
-- 
2.43.0


From c55397725e4092243d532e689ff765279618a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 39/87] fix: constrained spline overshoots in the first and
 last intervals

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 183224c..34b85d3 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -383,13 +383,13 @@ real_t interp1::firstDerivate( const real_t * const tx,
         const real_t dx = tx[ 1 ] - tx[ 0 ];
         const real_t dy = ty[ 1 ] - ty[ 0 ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ 2 ] - tx[ 0 ] )/( ty[ 2 ] - ty[ 0 ] ) + dx/dy );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, 1U );
     }
     else if ( n == i ) {
         const real_t dx = tx[ n ] - tx[ n - 1U ];
         const real_t dy = ty[ n ] - ty[ n - 1U ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ n ] - tx[ n - 2U ] )/( ty[ n ] - ty[ n - 2U ] ) + ( dx/dy ) );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, n - 1U );
     }
     else {
         const real_t tmp1 = ( tx[ i + 1U ] - tx[ i ] )/( ty[ i + 1U ] - ty[ i ] );
-- 
2.43.0


From c5ad311ac7eb4f842272169d5b1111363b758613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:45 +0000
Subject: [PATCH 40/87] fix: constrained spline swaps the ends of the interval
 and overshoots

---
 src/interp1.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 34b85d3..7da7f86 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -333,10 +333,10 @@ real_t interp1::cSpline( const real_t x,
             y = ty[ i + 1U ];
         }
         else {
-            const real_t x0 = tx[ i ];
-            const real_t x1 = tx[ i + 1U ];
-            const real_t y0 = ty[ i ];
-            const real_t y1 = ty[ i + 1U ];
+            const real_t x0 = tx[ i + 1U ];
+            const real_t x1 = tx[ i ];
+            const real_t y0 = ty[ i + 1U ];
+            const real_t y1 = ty[ i ];
             const real_t fd2i_xl1 = leftSecondDerivate( tx, ty, tableSize - 1U, i + 1U );
             const real_t fd2i_x = rightSecondDerivate( tx, ty, tableSize - 1U, i + 1U );
             const real_t x0_x1 = x0 - x1;
-- 
2.43.0


From 473eba6bfd28a43659cee5684adc242dc2f6e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:34 +0000
Subject: [PATCH 41/87] fix: triangular and trapezoidal sets vanish at a
 vertical right edge

---
 src/fisCore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index e2c5a5e..b625b3f 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -18,7 +18,8 @@ real_t fis::core::TriMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
     c = p[ 2 ];
-    tmp = Min( ( x - a )/( b - a ) , ( c - x )/( c - b ) );
+    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
+    tmp = Min( ( c - x )/( c - b ) , tmp ); /*a vertical edge (0/0) leaves tmp unchanged*/
 
     return Max( tmp , 0.0_re );
 }
@@ -36,7 +37,7 @@ real_t fis::core::TrapMF( const fis::ioBase * const in,
     c = p[ 2 ];
     d = p[ 3 ];
     tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( tmp, ( d - x )/( d - c ) ) ;
+    tmp = Min( ( d - x )/( d - c ), tmp ); /*a vertical edge (0/0) leaves tmp unchanged*/
 
     return Max( tmp , 0.0_re );
 }
-- 
2.43.0


From 6efcad8bd9e5feb40f16d3fe196384a26b8b090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:43 +0000
Subject: [PATCH 42/87] fix: two-sided gaussian set mirrors its right side

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index b625b3f..3268902 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -82,7 +82,7 @@ real_t fis::core::Gauss2MF( const fis::ioBase * const in,
     c1 = p[ 1 ];
     c2 = p[ 3 ];
     f1 = ( x <= c1 ) ? GaussMF( in , p, n ) : 1.0_re;
-    f2 = ( x <= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
+    f2 = ( x >= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
 
     return f1*f2;
 }
-- 
2.43.0


From 40d4c8a1eb32bf6e015bb151f61fe40bc5c893f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:51 +0000
Subject: [PATCH 43/87] fix: linear z-shaped set rises instead of falling

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 3268902..2f202f7 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -287,7 +287,7 @@ real_t fis::core::LinZMF( const fis::ioBase * const in,
             y = 0.0_re;
         }
         else {
-            y = ( a - x )/( a - b );
+            y = ( b - x )/( b - a );
         }
     }
     else if ( ffmath::isEqual( a, b ) ) {
-- 
2.43.0


From f08b1e2e1e53f8cae9ffa9b07213dccb3d7dad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:59 +0000
Subject: [PATCH 44/87] fix: Tsukamoto output sets do not invert their
 membership functions

---
 src/fisCore.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 2f202f7..a449e27 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -199,7 +199,7 @@ real_t fis::core::TSMF( const fis::ioBase * const in,
     ta = a + ffmath::sqrt( x*diff );
     tmp.value = ta;
     ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( -( x - 1.0_re )*diff );
+    tb = b - ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = tb;
     mb = SMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
@@ -315,10 +315,10 @@ real_t fis::core::TZMF( const fis::ioBase * const in,
     diff = 0.5_re*diff*diff;
     ta = a + ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = ta;
-    ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( x*diff );
+    ma = ZMF( &tmp, p, n );
+    tb = b - ffmath::sqrt( x*diff );
     tmp.value = tb;
-    mb = SMF( &tmp, p, n );
+    mb = ZMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
 }
 /*============================================================================*/
@@ -366,12 +366,14 @@ real_t fis::core::TConcaveMF( const fis::ioBase * const in,
                               const real_t *p,
                               const size_t n )
 {
+    const real_t x = in[ 0 ].value;
     real_t i, e;
+    (void)n;
 
     i = p[ 0 ];
     e = p[ 1 ];
 
-    return ( ( i - e )/ConcaveMF( in, p, n ) ) + ( 2.0_re*e ) - i;
+    return ( ( i - e )/x ) + ( 2.0_re*e ) - i;
 }
 /*============================================================================*/
 real_t fis::core::SpikeMF( const fis::ioBase * const in,
@@ -413,7 +415,7 @@ real_t fis::core::TLinZMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
 
-    return a - ( ( a - b )*x );
+    return b - ( ( b - a )*x );
 }
 /*============================================================================*/
 real_t fis::core::TRampMF( const ioBase * const in,
-- 
2.43.0


From e445ff0d218759ee5d23c9a6d96600bcfd70d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 45/87] fix: Tsukamoto inference evaluates its rule outputs on
 the inputs

---
 src/fis.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index d2fdcc3..66347dd 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -382,7 +382,14 @@ size_t fis::instance::inferenceConsequent( size_t i ) noexcept
         }
         else { /* Sugeno and Tsukamoto*/
             real_t zi;
-            zi = m.membership( xInput, nInputs );
+            if ( Tsukamoto == xType ) { /*the rule output is induced by its firing strength*/
+                fis::ioBase strength( o );
+                strength.value = wi[ ruleCount ];
+                zi = m.membership( &strength );
+            }
+            else {
+                zi = m.membership( xInput, nInputs );
+            }
             o.v[ sum_wz ] += zi*wi[ ruleCount ];
             o.v[ sum_w ] += wi[ ruleCount ];
         }
-- 
2.43.0


From f3c606ac4bef528acb15a13b6b588507896421f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:12 +0000
Subject: [PATCH 46/87] fix: smallest of maximum returns the largest of maximum

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index a449e27..1708b3c 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -624,7 +624,7 @@ real_t fis::core::deFuzzSOM( fis::output * const o,
 
     switch ( stage ) {
         case FIS_DEFUZZ_COMPUTE:
-            if ( o->y >= o->v[ yMax ] ) {
+            if ( o->y > o->v[ yMax ] ) {
                 o->v[ yMax ] = o->y;
                 o->v[ xLargest ] = o->x;
             }
-- 
2.43.0


From 12d4ab2deb33c1ae7e4070ed893623f2e8094d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:18 +0000
Subject: [PATCH 47/87] fix: FIS accepts implication methods that are not
 supported

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 66347dd..7093303 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -19,7 +19,7 @@ bool fis::instance::setParameter( const fis::parameter p,
             }
             break;
         case fis::parameter::FIS_Implication:
-            if ( x <= fis::paramValue::FIS_PROBOR ) {
+            if ( x <= fis::paramValue::FIS_PROD ) {
                 implicate = method[ x ];
                 retValue = true;
             }
-- 
2.43.0


From e1639f5de11a98c6ae6a9fd90edfcf75c3d04690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:27 +0000
Subject: [PATCH 48/87] fix: FIS output subscript falls back to an input

---
 src/include/fis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 924e8c7..53cdbe8 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -833,7 +833,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xInput[ nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xOutput[ nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
@@ -1168,7 +1168,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xInput[ sys.nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xOutput[ sys.nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
-- 
2.43.0


From 8fe6dfe5c6f1db32fcb19f1a7c7dce229ca51b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 49/87] fix: FIS accepts tags beyond its inputs, outputs and
 sets

---
 src/fis.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 7093303..712a9cb 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -122,7 +122,7 @@ bool fis::instance::setupInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].min = Min;
         xInput[ t ].max = Max;
@@ -139,7 +139,7 @@ bool fis::instance::setupOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         xOutput[ t ].min = Min;
         xOutput[ t ].max = Max;
@@ -172,7 +172,7 @@ bool fis::instance::setInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].value = value;
         /*cstat +CERT-STR34-C*/
@@ -187,7 +187,7 @@ bool fis::instance::getOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xOutput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( t >= 0 ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         value = xOutput[ t ].value;
         /*cstat +CERT-STR34-C*/
@@ -217,7 +217,12 @@ bool fis::instance::setMF( fis::mf *m,
         &TLinSMF, &TLinZMF, &TConcaveMF, &TSigMF, &TSMF, &TZMF, &TRampMF
     };
 
-    if ( ( io >= 0 ) && ( mf >= 0 ) && ( s < FIS_NUM_MFS ) ) {
+    const bool isInput = ( m == inMF );
+    const size_t nIO = isInput ? nInputs : nOutputs;
+    const size_t nMF = isInput ? nMFInputs : nMFOutputs;
+
+    if ( ( io >= 0 ) && ( static_cast<size_t>( io ) < nIO ) &&
+         ( mf >= 0 ) && ( static_cast<size_t>( mf ) < nMF ) && ( s < FIS_NUM_MFS ) ) {
         /*cstat -CERT-STR34-C*/
         m[ mf ].shape = ( nullptr != customMf ) ? customMf : fShape[ s ];
         m[ mf ].index = static_cast<size_t>( io );
-- 
2.43.0


From f29a15400d206106f25307105d5656d186903278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:40 +0000
Subject: [PATCH 50/87] fix: FIS accepts a rule on an input that does not exist

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 712a9cb..5728123 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -305,7 +305,7 @@ size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
     op = getFuzzOperator();
     rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
 
-    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) > nInputs ) ) {
+    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) >= nInputs ) ) {
         i = INFERENCE_ERROR;
     }
     else {
-- 
2.43.0


From 72b91906dfad4b49796ce3860fadc4dd389af987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:47 +0000
Subject: [PATCH 51/87] fix: FIS without rule strengths dereferences a null
 pointer

---
 src/fis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 5728123..94f24a2 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -431,7 +431,7 @@ bool fis::instance::deFuzzify( void ) noexcept
 {
     bool retValue = false;
 
-    if ( ( nullptr != xOutput ) && ( nullptr != outMF ) ) {
+    if ( ( nullptr != xOutput ) && ( nullptr != outMF ) && ( nullptr != wi ) ) {
         size_t i;
 
         for ( i = 0U ; i < nOutputs ; ++i ) {
@@ -491,7 +491,7 @@ bool fis::instance::inference( void ) noexcept
 {
     bool retValue = false;
 
-    if ( nullptr != xRules  ) {
+    if ( ( nullptr != xRules ) && ( nullptr != wi ) ) {
         size_t i = 0U;
 
         if ( Q_FIS_RULES_BEGIN == xRules[ 0 ] ) {
-- 
2.43.0


From d5369bc7a4d2a8a99e3e8338ab356e7d91df0177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:43 +0000
Subject: [PATCH 52/87] fix: cubic root of negative values starts from a wrong
 seed

---
 src/ffmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7bfd6ba..e494e59 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -248,13 +248,14 @@ static float compute_cbrt( float x , bool r )
     float retVal, y = 0.0F, c, d;
     const float k[ 3 ] = { 1.752319676F, 1.2509524245F, 0.5093818292F };
     constexpr float c13 = 1.0F/3.0F;
-    uint32_t i = bit_cast<uint32_t>( x );
+    uint32_t i;
     bool neg = false;
 
     if ( x < 0.0F ) {
         x = -x;
         neg = true;
     }
+    i = bit_cast<uint32_t>( x );
     i = 0x548C2B4BU - ( i/3U );
     y = bit_cast<float>( i );
     c = x*y*y*y;
-- 
2.43.0


From ed3af9e7899adfbc25734eae5d65a7cec18e770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:51 +0000
Subject: [PATCH 53/87] fix: square root of infinity is nan

---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index e494e59..24f5e49 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -208,6 +208,9 @@ float ffmath::sqrt( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = 0.0F;
     }
+    else if ( x > limits::Max() ) {
+        retVal = x;
+    }
     else {
         uint32_t y = bit_cast<uint32_t>( x );
         float z = 0.0F;
-- 
2.43.0


From bf1ca3922ca7c777dacf3f02c75b6e4257af782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:00 +0000
Subject: [PATCH 54/87] fix: arc tangent of infinity is nan

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 24f5e49..f4369ee 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -503,7 +503,7 @@ float ffmath::atan( float x )
 {
     float abs_x;
 
-    x /= absolute( x ) + 1.0F;
+    x = ffmath::isInf( x ) ? ffmath::sign( x ) : ( x/( absolute( x ) + 1.0F ) );
     abs_x = absolute( x );
 
     return x*( ( abs_x*( ( -1.45667498914F*abs_x ) + 2.18501248371F ) ) + 0.842458832225F );
-- 
2.43.0


From ae7d048e8c4d209d5b30ea16dd5b66b47a01b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:46 +0000
Subject: [PATCH 55/87] fix: base 2 exponential overflows before the end of the
 range

---
 src/ffmath.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f4369ee..0937588 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -547,7 +547,12 @@ float ffmath::exp2( float x )
         x = ( x*fp ) + 2.402264791363012e-1F;
         x = ( x*fp ) + 6.931472028550421e-1F;
         x = ( x*fp ) + 1.0F;
-        retVal = x*bit_cast<float>( ep_i );
+        if ( ip > 127.0F ) { /*2^128 is not representable*/
+            retVal = ( 2.0F*x )*bit_cast<float>( 0x7F000000U );
+        }
+        else {
+            retVal = x*bit_cast<float>( ep_i );
+        }
     }
 
     return retVal;
-- 
2.43.0


From 794ec195f68ecc69241b3a841672eee12bc940b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:54 +0000
Subject: [PATCH 56/87] fix: logarithms of infinity and nan are finite

---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 0937588..6e1c57b 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -568,6 +568,9 @@ float ffmath::log2( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = -limits::infinity();
     }
+    else if ( !ffmath::isFinite( x ) ) {
+        retVal = x;
+    }
     else {
         float z, px;
         int32_t ip, fp;
-- 
2.43.0


From 7e271affea44e669f3df4ccce71070455842949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:02 +0000
Subject: [PATCH 57/87] fix: hyperbolic sine and cosine of negative values
 overflow early

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 6e1c57b..813b48e 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -646,15 +646,15 @@ float ffmath::pow( float b,
 /*============================================================================*/
 float ffmath::sinh( float x )
 {
-    const float epx = ffmath::exp( x );
+    const float epx = ffmath::exp( absolute( x ) );
     const float enx = 1.0F/epx;
 
-    return 0.5F*( epx - enx );
+    return ffmath::copysign( 0.5F*( epx - enx ), x );
 }
 /*============================================================================*/
 float ffmath::cosh( float x )
 {
-    const float epx = ffmath::exp( x );
+    const float epx = ffmath::exp( absolute( x ) );
     const float enx = 1.0F/epx;
 
     return 0.5F*( epx + enx );
-- 
2.43.0


From 3208b44159a6ad61c3c65c6c138daa31157e4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:09 +0000
Subject: [PATCH 58/87] fix: hyperbolic tangent of large negative values is nan

---
 src/ffmath.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 813b48e..2070ead 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -662,8 +662,9 @@ float ffmath::cosh( float x )
 /*============================================================================*/
 float ffmath::tanh( float x )
 {
-    x = ffmath::exp( -2.0F*x );
-    return ( 1.0F - x )/( 1.0F + x );
+    const float enx = ffmath::exp( -2.0F*absolute( x ) );
+
+    return ffmath::copysign( ( 1.0F - enx )/( 1.0F + enx ), x );
 }
 /*============================================================================*/
 float ffmath::asinh( float x )
-- 
2.43.0


From 84928ab9e5b836d680b68a28f46b1bb21dd838db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:17 +0000
Subject: [PATCH 59/87] fix: inverse hyperbolic sine and cosine of large values
 are wrong

---
 src/ffmath.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 2070ead..141950b 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -669,13 +669,29 @@ float ffmath::tanh( float x )
 /*============================================================================*/
 float ffmath::asinh( float x )
 {
-    return ffmath::log( x + ffmath::sqrt( ( x*x ) + 1.0F ) );
+    const float a = absolute( x );
+    /*above the limit, the unit is negligible and the square could overflow*/
+    const float y = ( a > 1.0e+4F ) ? ( ffmath::log( a ) + ffmath::FFP_LN2 )
+                                    : ffmath::log( a + ffmath::sqrt( ( a*a ) + 1.0F ) );
+
+    return ffmath::copysign( y, x );
 }
 /*============================================================================*/
 float ffmath::acosh( float x )
 {
-    return ( x < 1.0F ) ? limits::nan()
-                        : ffmath::log( x + ffmath::sqrt( ( x*x ) - 1.0F ) );
+    float y;
+
+    if ( x < 1.0F ) {
+        y = limits::nan();
+    }
+    else if ( x > 1.0e+4F ) { /*the unit is negligible and the square could overflow*/
+        y = ffmath::log( x ) + ffmath::FFP_LN2;
+    }
+    else {
+        y = ffmath::log( x + ffmath::sqrt( ( x*x ) - 1.0F ) );
+    }
+
+    return y;
 }
 /*============================================================================*/
 float ffmath::atanh( float x )
-- 
2.43.0


From bc70472858788a229ccae63909a9d0cb813e958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:25 +0000
Subject: [PATCH 60/87] fix: remainder checks the dividend for zero instead of
 the divisor

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 141950b..bbcad46 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -408,7 +408,7 @@ float ffmath::frac( float x )
 float ffmath::rem( float x,
                    float y )
 {
-    return ( classification::FFP_ZERO == classify( x ) ) ? limits::nan()
+    return ( classification::FFP_ZERO == classify( y ) ) ? limits::nan()
                                                          : ( x - ( y*ffmath::trunc( x/y ) ) );
 }
 /*============================================================================*/
-- 
2.43.0


From 7c06a73bbd42adf779145039a9f0a9c9b1c6f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 61/87] fix: angle wrapping maps positive multiples to the
 lower end

---
 src/ffmath.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index bbcad46..540cec1 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -701,22 +701,26 @@ float ffmath::atanh( float x )
 /*============================================================================*/
 float ffmath::wrapToPi( float x )
 {
-    return ffmath::mod( x + ffmath::FFP_PI, ffmath::FFP_2PI ) - ffmath::FFP_PI;
+    return ( absolute( x ) > ffmath::FFP_PI ) ? ( ffmath::wrapTo2Pi( x + ffmath::FFP_PI ) - ffmath::FFP_PI ) : x;
 }
 /*============================================================================*/
 float ffmath::wrapTo2Pi( float x )
 {
-    return ffmath::mod( x, ffmath::FFP_2PI );
+    const float y = ffmath::mod( x, ffmath::FFP_2PI );
+
+    return ( ( x > 0.0F ) && ( y <= 0.0F ) ) ? ffmath::FFP_2PI : y;
 }
 /*============================================================================*/
 float ffmath::wrapTo180( float x )
 {
-    return ffmath::mod( x + 180.0F, 360.0F ) - 180.0F;
+    return ( absolute( x ) > 180.0F ) ? ( ffmath::wrapTo360( x + 180.0F ) - 180.0F ) : x;
 }
 /*============================================================================*/
 float ffmath::wrapTo360( float x )
 {
-    return ffmath::mod( x, 360.0F );
+    const float y = ffmath::mod( x, 360.0F );
+
+    return ( ( x > 0.0F ) && ( y <= 0.0F ) ) ? 360.0F : y;
 }
 /*============================================================================*/
 float ffmath::midpoint( float a,
-- 
2.43.0


From babeec7270a1052f9f9a1a1272ba688480da3d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:50 +0000
Subject: [PATCH 62/87] fix: point in polygon test crosses the edges at a wrong
 height

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 540cec1..b2a7760 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -833,7 +833,7 @@ bool ffmath::inPolygon( const float x,
             if ( ( px[ i ] > x ) != ( px[ j ] > x ) ) {
                 const float dx = px[ j ] - px[ i ];
                 const float dy = py[ j ] - py[ i ];
-                if ( y < ( ( dy*( x - px[ i ] ) )/( dx + py[ i ] ) ) ) {
+                if ( y < ( ( ( dy*( x - px[ i ] ) )/dx ) + py[ i ] ) ) {
                     retVal = !retVal;
                 }
             }
-- 
2.43.0


From e99d83463c8d50761cb35122a7deda7be7a57d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 63/87] fix: error function is scaled by a quarter and uses the
 wrong base

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index b2a7760..3525e53 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -862,8 +862,8 @@ float ffmath::erf( float x )
         retVal = 1.0F;
     }
     else {
-        x = ffmath::exp( 3.472034176F*x );
-        retVal = ( x/( ( absolute( x ) + 1.0F )*2.0F ) ) - 1.0F;
+        x = ffmath::exp2( 3.472034176F*x );
+        retVal = ( ( x/( absolute( x ) + 1.0F ) )*2.0F ) - 1.0F;
     }
 
     return retVal;
-- 
2.43.0


From 31f2c13587b9c15d85de0ed15c91f69e5b6922f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:08 +0000
Subject: [PATCH 64/87] fix: decomposition of zero and subnormal values is
 wrong

---
 src/ffmath.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 3525e53..e0abb29 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -877,12 +877,22 @@ float ffmath::erfc( float x )
 float ffmath::rexp( float x,
                     int32_t *pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
+    uint32_t lu;
     uint32_t iu;
     int32_t i = 0;
+    const auto fClass = ffmath::classify( x );
 
+    if ( classification::FFP_ZERO == fClass ) {
+        pw2[ 0 ] = 0;
+        return x;
+    }
+    if ( classification::FFP_SUBNORMAL == fClass ) {
+        x *= 16777216.0F; /* normalize it with 2^24 */
+        i = -24;
+    }
+    lu = bit_cast<uint32_t>( x );
     iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
-    i = bit_cast<int32_t>( iu );
+    i += bit_cast<int32_t>( iu );
     i -= 0x7E;
     pw2[ 0 ] = static_cast<int>( i );
     lu &= 0x807FFFFFU; /* strip all exponent bits */
-- 
2.43.0


From 12e7421dd9876f87d04370ee0031764ea01c3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:16 +0000
Subject: [PATCH 65/87] fix: multiplication by a power of two wraps around the
 exponent

---
 src/ffmath.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index e0abb29..655ff85 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -904,17 +904,30 @@ float ffmath::rexp( float x,
 float ffmath::ldexp( float x,
                      int32_t pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
-    uint32_t eu;
-    int32_t e = 0;
+    /*two steps cover the span of the exponent, a third one reaches its ends*/
+    constexpr int32_t eMax = 127, eMin = -102;
 
-    eu = ( lu >> 23U ) & 0x000000FFU;
-    e = bit_cast<int32_t>( eu );
-    e += pw2;
-    eu = bit_cast<uint32_t>( e );
-    lu = ( ( eu & 0xFFU ) << 23U ) | ( lu & 0x807FFFFFU );
-
-    return bit_cast<float>( lu );
+    for ( size_t i = 0U ; ( i < 2U ) && ( pw2 > eMax ) ; ++i ) {
+        x *= 1.7014118346046923e+38F; /* 2^127 */
+        pw2 -= eMax;
+    }
+    /*2^-102 keeps the intermediate values out of a double rounding*/
+    for ( size_t i = 0U ; ( i < 2U ) && ( pw2 < -126 ) ; ++i ) {
+        x *= 1.9721522630525295e-31F; /* 2^-102 */
+        pw2 -= eMin;
+    }
+    if ( pw2 > eMax ) {
+        pw2 = eMax;
+    }
+    else if ( pw2 < -126 ) {
+        pw2 = -126;
+    }
+    else {
+        /*nothing to do here*/
+    }
+    /*cstat -MISRAC++2008-5-0-21*/
+    return x*bit_cast<float>( ( pw2 + 127 ) << 23 );
+    /*cstat +MISRAC++2008-5-0-21*/
 }
 /*============================================================================*/
 float ffmath::hypot( float x,
-- 
2.43.0


From ac7ad46de20ee7d02d004c0ae55b65c833606236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:24 +0000
Subject: [PATCH 66/87] fix: hypotenuse with negative sides scales by the
 smaller one

---
 src/ffmath.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 655ff85..ff02f33 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -941,6 +941,8 @@ float ffmath::hypot( float x,
         float a, b, an, bn;
         int32_t e = 0;
 
+        x = absolute( x );
+        y = absolute( y );
         if ( x >= y ) {
             a = x;
             b = y;
-- 
2.43.0


From d036998352ee18650e43d9c2c6a49317264b7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:25 +0000
Subject: [PATCH 67/87] fix: exponentials of nan convert it to an integer

---
 src/ffmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index ff02f33..8d069d6 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -531,6 +531,9 @@ float ffmath::exp2( float x )
     else if ( x > 128.0F ) {
         retVal = limits::infinity();
     }
+    else if ( ffmath::isNan( x ) ) {
+        retVal = x;
+    }
     else {
         float ip, fp;
         int32_t ep_i;
-- 
2.43.0


From d78ea52369a8c337311815b08526407ab357ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:10 +0000
Subject: [PATCH 68/87] fix: exponential integral of small negative arguments
 has the wrong sign

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 8d069d6..862abb4 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2120,7 +2120,7 @@ static float expint_Ei( float x )
     if ( x < 0.0F ) {
         x = -x;
         if ( x < 1.0F ) {
-            y = expint_E1_series( x );
+            y = -expint_E1_series( x );
         }
         else if ( x < 100.F ) {
             y = -expint_En_cont_frac( 1, x );
-- 
2.43.0


From 05d6b93ff2fe8bd12eea6beb171faa70735b9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:18 +0000
Subject: [PATCH 69/87] fix: exponential integral above 36 drops its asymptotic
 series

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 862abb4..9d3d479 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2051,7 +2051,7 @@ static float expint_Ei_asymp( float x )
     for ( size_t i = 1U; i < maxIter; ++i ) {
         const float prev = term;
         /*cstat -CERT-FLP36-C*/
-        term *= -static_cast<float>( i )/x;
+        term *= static_cast<float>( i )/x;
         /*cstat +CERT-FLP36-C*/
         if ( ( term < limits::epsilon() ) || ( term >= prev ) ) {
             break;
-- 
2.43.0


From f4f9d48debee9d5d1e0c8fa2f91c791c2bbd9818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:27 +0000
Subject: [PATCH 70/87] fix: associated Legendre recurrence divides only its
 second term

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 9d3d479..a8c5b0a 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1568,7 +1568,7 @@ float ffmath::assoc_legendre( size_t n,
                 for ( size_t i = ( m + 2U ) ; i <= n ; ++i ) {
                     const float j = static_cast<float>( i );
                     /*cstat +CERT-FLP36-C*/
-                    p_lm = ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m/( j - M ) );
+                    p_lm = ( ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m ) )/( j - M );
                     p_lm2m = p_lm1m;
                     p_lm1m = p_lm;
                 }
-- 
2.43.0


From 041eaa1434c62d66736876ec6095c7cc82d5f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:35 +0000
Subject: [PATCH 71/87] fix: associated Legendre polynomials accept arguments
 out of their domain

---
 src/ffmath.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index a8c5b0a..1f9668f 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1530,12 +1530,12 @@ float ffmath::assoc_legendre( size_t n,
     float y;
     const float phase = 1.0F;
 
-    if ( m > n ) {
-        y = 0.0F;
-    }
-    else if ( ffmath::isNan( x ) ) {
+    if ( ffmath::isNan( x ) || ( absolute( x ) > 1.0F ) ) {
         y = limits::nan();
     }
+    else if ( m > n ) {
+        y = 0.0F;
+    }
     else if ( 0U == m ) {
         y = poly_legendre_p( n, x );
     }
-- 
2.43.0


From b3d2ee7f5b26ffcf27d3537cb11d08c7c353e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:43 +0000
Subject: [PATCH 72/87] fix: associated Laguerre polynomials at zero miss the
 last factor

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 1f9668f..26d3c43 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1460,7 +1460,7 @@ float ffmath::assoc_laguerre( size_t n,
     }
     else if ( ffmath::isEqual( 0.0F, x ) ) {
         float prod = alpha + 1.0F;
-        for ( size_t i = 2U ; i < n ; ++i ) {
+        for ( size_t i = 2U ; i <= n ; ++i ) {
             /*cstat -CERT-FLP36-C*/
             const float k = static_cast<float>( i );
             /*cstat +CERT-FLP36-C*/
-- 
2.43.0


From c59f88ebabc3eb50dce29fdd6b67610b2910e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:51 +0000
Subject: [PATCH 73/87] fix: Laguerre polynomials of low degree use the large
 degree approximation

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 26d3c43..9f8ba1b 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1468,10 +1468,10 @@ float ffmath::assoc_laguerre( size_t n,
         }
         y = prod;
     }
-    else if ( ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
+    else if ( ( n > 10000000U ) && ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
         y = poly_laguerre_large_n( n, alpha, x );
     }
-    else if ( ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
+    else if ( ( alpha >= 0.0F ) || ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
         y = poly_laguerre_recursion( n, alpha, x );
     }
     else {
-- 
2.43.0


From be645e2bd5d43f8360ed4d46e2823d1a82cb5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:59 +0000
Subject: [PATCH 74/87] fix: modified Bessel functions start their fraction
 from a stale value

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 9f8ba1b..62fa3b3 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2727,6 +2727,9 @@ static void bessel_ik( float nu,
             k_nu1 = sum1*xi2;
         }
         else {
+            b = 2.0F*( 1.0F + x );
+            d = 1.0F/b;
+            h = d;
             float del_h = d;
             float q1 = 0.0F;
             float q2 = 1.0F;
@@ -2735,9 +2738,6 @@ static void bessel_ik( float nu,
             float a = -a1;
             float s = 1.0F + ( q*del_h );
 
-            b = 2.0F*( 1.0F + x );
-            d = 1.0F/b;
-            h = d;
             c = a1;
             for ( int i = 2 ; i <= max_iter; ++i) {
                 /*cstat -CERT-FLP36-C*/
-- 
2.43.0


From ae3fb49946fa52f82b1672dd662984659efdc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:07 +0000
Subject: [PATCH 75/87] fix: logarithm of the gamma function overflows with
 arguments above 171

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 62fa3b3..805b4ea 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1134,7 +1134,7 @@ static float lgamma_positive( float x )
     constexpr float pnt68 = 0.6796875F;
     float result;
 
-    if ( x > 171.624F ) {
+    if ( x > 4.0850034e+36F ) {
         result = limits::infinity();
     }
     else {
-- 
2.43.0


From d26e84b0500406fb2c06802018f6fb1359a8c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:15 +0000
Subject: [PATCH 76/87] fix: gamma function at its poles differs from its
 documentation

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 805b4ea..b87d79d 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1010,7 +1010,7 @@ float ffmath::tgamma( float x )
         result = limits::nan();
     }
     else if ( classification::FFP_ZERO == fClass ) {
-        result = limits::infinity(); /* a huge value */
+        result = ffmath::copysign( limits::infinity(), x ); /* a huge value */
     }
     else if ( classification::FFP_INFINITE == fClass ) {
         result = ( x > 0.0F ) ? limits::infinity() : limits::nan();
@@ -1037,7 +1037,7 @@ float ffmath::tgamma( float x )
                 y += 1.0F;
             }
             else {
-                result = limits::nan();
+                result = limits::infinity();
                 goto EXIT_TGAMMA;
             }
         }
-- 
2.43.0


From b1f953e04f0aa9410d34b807f40a6676f670696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 77/87] fix: zeta function of large negative arguments is nan

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index b87d79d..55a8e7e 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2322,9 +2322,9 @@ float ffmath::riemann_zeta( float s )
     }
     else if ( s < -19.0F ) {
         z = riemann_zeta_product( 1.0F - s );
-        z *= ffmath::pow( 2.0F*ffmath::FFP_PI, s )*
-             ffmath::sin( ffmath::FFP_PI_2*s )*
-             ffmath::exp( ffmath::lgamma( 1.0F - s ) )/
+        /*scaled in the logarithmic domain, as both factors leave the range*/
+        z *= ffmath::sin( ffmath::FFP_PI_2*s )*
+             ffmath::exp( ffmath::lgamma( 1.0F - s ) + ( s*ffmath::log( 2.0F*ffmath::FFP_PI ) ) )/
              ffmath::FFP_PI;
     }
     else if ( s < 20.0F ) {
-- 
2.43.0


From 934453c460a1be350877e14115b991b0f18bbd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:11 +0000
Subject: [PATCH 78/87] fix: prefix decrement of a matrix increments it

---
 src/include/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 680733f..f2c6255 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -257,7 +257,7 @@ namespace qlibs {
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        ++m[i][j];
+                        --m[i][j];
                     }
                 }
                 return *this;
-- 
2.43.0


From 73511be5777352c4b81277dae33c48d8f410fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:19 +0000
Subject: [PATCH 79/87] fix: infinity norm of non-square matrices reads out of
 bounds

---
 src/include/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index f2c6255..117c308 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -470,9 +470,9 @@ namespace qlibs {
                 size_t i,j;
                 real_t maxM =0.0_re, sum = 0.0_re;
 
-                for ( i = 0U ; i < Cols; i++ ) {
+                for ( i = 0U ; i < Rows; i++ ) {
                     sum = 0.0_re;
-                    for ( j = 0U ; j < Rows ; ++j ) {
+                    for ( j = 0U ; j < Cols ; ++j ) {
                         sum += ( m[i][j] < 0.0_re ) ? -m[i][j] : m[i][j];
                     }
                     if ( 0U == i ) {
-- 
2.43.0


From db0bdc9a68847980c1a545af6a88aca69bac2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:26 +0000
Subject: [PATCH 80/87] fix: inverse of a matrix with a zero on its diagonal is
 nan

---
 src/include/mat.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 117c308..c2bd779 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -445,6 +445,19 @@ namespace qlibs {
                 mat<Rows,Rows> I( MAT_IDENTITY );
 
                 for ( size_t i = 0; i < Rows; ++i ) {
+                    size_t p = i; // Bring the largest element of the column to the diagonal
+                    for ( size_t j = i + 1U; j < Rows; ++j ) {
+                        if ( ffmath::absf( X(j, i) ) > ffmath::absf( X(p, i) ) ) {
+                            p = j;
+                        }
+                    }
+                    for ( size_t j = 0; ( j < Rows ) && ( p != i ); ++j ) {
+                        const real_t x = X(i, j), y = I(i, j);
+                        X(i, j) = X(p, j);
+                        X(p, j) = x;
+                        I(i, j) = I(p, j);
+                        I(p, j) = y;
+                    }
                     real_t pivot = X(i, i);
                     // Make the diagonal element 1
                     for ( size_t j = 0; j < Rows; ++j ) {
-- 
2.43.0


From 939aeace4040fd50715e53ee708efd366027fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 81/87] fix: left rotation by the lowest integer rotates by a
 wrong amount

---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 9ff376e..8f399ae 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -185,7 +185,7 @@ namespace qlibs {
                 }
                 else {
                     /*cstat -MISRAC++2008-5-0-9*/
-                    r = static_cast<size_t>( -k );
+                    r = 0U - static_cast<size_t>( k ); /*-k overflows for the lowest integer*/
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
                     if ( r > 0U ) {
-- 
2.43.0


From 769d655222b44af5db27746a20381ff71339a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 82/87] fix: compound operators with a scalar that is an
 element of the matrix

The scalar was taken by reference, so that A /= A(0,0) divided only the first
element by the requested value and the others by the updated one.
---
 src/include/mat.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index c2bd779..a406b25 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -313,7 +313,7 @@ namespace qlibs {
             }
 
             // Overload the compound multiplication operator (*=) with scalar
-            mat<Rows, Cols>& operator*=(const real_t& scalar) {
+            mat<Rows, Cols>& operator*=(const real_t scalar) {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
                         m[i][j] *= scalar;
@@ -323,7 +323,7 @@ namespace qlibs {
             }
 
             // Overload the compound multiplication operator (*=) with scalar
-            mat<Rows, Cols>& operator/=(const real_t& scalar) {
+            mat<Rows, Cols>& operator/=(const real_t scalar) {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
                         m[i][j] /= scalar;
@@ -333,7 +333,7 @@ namespace qlibs {
             }
 
             // Overload the compound addition operator (+=) with a scalar
-            mat<Rows, Cols>& operator+=(const real_t& scalar)
+            mat<Rows, Cols>& operator+=(const real_t scalar)
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
@@ -344,7 +344,7 @@ namespace qlibs {
             }
 
             // Overload the compound subtraction operator (-=) with a scalar
-            mat<Rows, Cols>& operator-=(const real_t& scalar)
+            mat<Rows, Cols>& operator-=(const real_t scalar)
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-- 
2.43.0


From 47952ffa590bbb9ec723bbcc3a64adfcdc55b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:14 +0000
Subject: [PATCH 83/87] fix: the observable form of continuous systems cannot
 be selected

---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index d4451e7..7f3d76b 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -26,7 +26,7 @@ namespace qlibs {
 
     /** @cond **/
     /*only for continuousSystem*/
-    #if !defined( LTISYS_EVAL_MODEL_CONTROLLABLE ) || !defined( LTISYS_EVAL_MODEL_OBSERVABLE )
+    #if !defined( LTISYS_EVAL_MODEL_CONTROLLABLE ) && !defined( LTISYS_EVAL_MODEL_OBSERVABLE )
         #define LTISYS_EVAL_MODEL_CONTROLLABLE
     #endif
     /** @endcond **/
-- 
2.43.0


From 7cd65ed74000abdea8c9085c7a43cb558e23da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:49 +0000
Subject: [PATCH 84/87] fix: Bessel functions of the second kind of orders
 close to an integer

Two terms of the Temme series, gam1 and sinh(e)/e, are quotients that lose all
of their digits when the order is close to an integer, e.g. for x = 1
cyl_bessel_k(1.2e-7, x) was -0.106 instead of 0.421. Use their power series
there.
---
 src/ffmath.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 55a8e7e..17a2079 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2337,6 +2337,14 @@ float ffmath::riemann_zeta( float s )
     return z;
 }
 /*============================================================================*/
+static float sinh_ratio( float x )
+{
+    const float xx = x*x;
+
+    return ( xx < 0.09F ) ? ( 1.0F + ( xx*( 1.0F + ( xx/20.0F ) ) )/6.0F ) /*power series, sinh(x) keeps no digits of a small x*/
+                          : ( ffmath::sinh( x )/x );
+}
+/*============================================================================*/
 static void gamma_temme( float mu,
                          float& gam1,
                          float& gam2,
@@ -2347,8 +2355,8 @@ static void gamma_temme( float mu,
     gam_pl = 1.0F/ffmath::tgamma( 1.0F + mu );
     gam_mi = 1.0F/ffmath::tgamma( 1.0F - mu );
 
-    if ( absolute( mu ) < limits::epsilon() ) {
-        gam1 = -ffmath::FFP_GAMMA_E;
+    if ( absolute( mu ) < 0.05F ) { /*power series, the difference below cancels*/
+        gam1 = ( 0.0420026350340952F*mu*mu ) - ffmath::FFP_GAMMA_E;
     }
     else {
         gam1 = ( gam_mi - gam_pl )/( 2.0F*mu );
@@ -2447,7 +2455,7 @@ static void bessel_jn( float nu,
             const float fact_l = ( absolute( pi_mu ) < eps ) ? 1.0F : pi_mu/ffmath::sin( pi_mu );
             d = -ffmath::log( x2 );
             float e = mu*d;
-            const float fact2 = ( absolute( e ) < eps ) ? 1.0F : ffmath::sinh(e)/e;
+            const float fact2 = sinh_ratio( e );
             float gam1, gam2, gam_pl, gam_mi;
 
             gamma_temme( mu, gam1, gam2, gam_pl, gam_mi );
@@ -2695,7 +2703,7 @@ static void bessel_ik( float nu,
             const float fact = ( absolute( pi_mu ) < eps ) ? 1.0F : pi_mu/ffmath::sin( pi_mu );
             d = -ffmath::log( x2 );
             float e = mu*d;
-            const float fact2 = ( absolute( e ) < eps ) ? 1.0F : ffmath::sinh( e )/e ;
+            const float fact2 = sinh_ratio( e );
             float gam1, gam2, gam_pl, gam_mi;
             gamma_temme(mu, gam1, gam2, gam_pl, gam_mi);
             float ff = fact*( ( gam1*ffmath::cosh( e ) ) + ( gam2*fact2*d ) );
-- 
2.43.0


From 7d41524bcb1cc3bb4e1d63d9e766b3ddf2b1854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:50 +0000
Subject: [PATCH 85/87] fix: overflow of Neumann functions gives -inf instead
 of nan

Once two successive orders overflow, the upward recurrence subtracts two
infinities: cyl_neumann(20, 0.01) and sph_neumann(3, 1e-26) were nan.
---
 src/ffmath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 17a2079..f4de3c0 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2552,6 +2552,10 @@ static void bessel_jn( float nu,
         j_nu = fact*j_nul1;
         j_pnu = fact*j_pnu1;
         for ( int i = 1; i <= nl; ++i ) {
+            if ( ffmath::isInf( n_nu1 ) ) { /*overflow, and so are all further orders*/
+                n_mu = n_nu1;
+                break;
+            }
             /*cstat -CERT-FLP36-C*/
             const float n_nu_temp = ( mu + static_cast<float>( i ) )*xi2*n_nu1 - n_mu;
             /*cstat +CERT-FLP36-C*/
-- 
2.43.0


From 70bd7a82154c396cde1603a2e9d6e8e99a827865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:50 +0000
Subject: [PATCH 86/87] fix: spherical Bessel function of small arguments

Below about 1e-9 the continued fraction leaves the range of float and
sph_bessel() was inf, nan or a wrong value, e.g. inf instead of 1 for
sph_bessel(0, 1e-11). Use the ascending series there, as cyl_bessel_j() does.
---
 src/ffmath.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index f4de3c0..58953ac 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2600,6 +2600,13 @@ float ffmath::sph_bessel( size_t n,
     else if ( ffmath::isEqual( 0.0F, x ) ) {
         y = ( 0U == n ) ? 1.0F : 0.0F;
     }
+    else if ( x < 0.001F ) { /*the continued fraction overflows*/
+        constexpr float sqrtpi2 = 1.25331413731550012080617761967005208134651184F;
+        /*cstat -CERT-FLP36-C*/
+        const float nu = static_cast<float>( n ) + 0.5F;
+        /*cstat +CERT-FLP36-C*/
+        y = sqrtpi2*ffmath::rSqrt( x )*cyl_bessel_ij_series( nu, x, -1.0F, 200U );
+    }
     else {
         float j_n, n_n, jp_n, np_n;
 
-- 
2.43.0


From 2af2b25f434c1c1c4ccbdbe38f5930bfd9b5a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:22 +0000
Subject: [PATCH 87/87] fix: Bessel functions of high order

The downward recurrences of bessel_jn() and bessel_ik() leave the range of
float at high orders and give nan, e.g. cyl_neumann(60, 2), which is -inf,
cyl_bessel_j(200, 70), which underflows to 0, and cyl_bessel_i(100, 35), which
is 4.28e-33. Rescale them on the way.
---
 src/ffmath.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 58953ac..7e6a83f 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2433,8 +2433,8 @@ static void bessel_jn( float nu,
         }
         float j_nul = iSign*fp_min;
         float j_pnu_l = h*j_nul;
-        const float j_nul1 = j_nul;
-        const float j_pnu1 = j_pnu_l;
+        float j_nul1 = j_nul;
+        float j_pnu1 = j_pnu_l;
         float fact = nu*xi;
 
         for ( int l = nl; l >= 1; --l ) {
@@ -2443,6 +2443,12 @@ static void bessel_jn( float nu,
             fact -= xi;
             j_pnu_l = ( fact*j_nu_temp ) - j_nul;
             j_nul = j_nu_temp;
+            if ( absolute( j_nul ) > ( 1.0F/fp_min ) ) { /*keep the recurrence in range*/
+                j_nul *= fp_min;
+                j_pnu_l *= fp_min;
+                j_nul1 *= fp_min;
+                j_pnu1 *= fp_min;
+            }
         }
         if ( ffmath::isEqual( 0.0F, j_nul ) ) {
             j_nul = eps;
@@ -2696,6 +2702,7 @@ static void bessel_ik( float nu,
         float i_pnu_l = h*i_nul;
         const float i_nul1 = i_nul;
         const float i_pnu_1 = i_pnu_l;
+        int rescaled = 0;
         float fact_m = nu*xi;
 
         for ( int l = nl ; l >= 1 ; --l ) {
@@ -2704,6 +2711,11 @@ static void bessel_ik( float nu,
             fact_m -= xi;
             i_pnu_l = ( fact_m*i_nu_temp ) + i_nul;
             i_nul = i_nu_temp;
+            if ( i_nul > 1.0E+18F ) { /*keep the recurrence in range*/
+                i_nul *= 1.0E-18F;
+                i_pnu_l *= 1.0E-18F;
+                ++rescaled;
+            }
         }
         const float f = i_pnu_l/i_nul;
         float Kmu, k_nu1;
@@ -2786,6 +2798,10 @@ static void bessel_ik( float nu,
 
         i_nu = i_num_u*i_nul1/i_nul;
         i_pnu = i_num_u*i_pnu_1/i_nul;
+        for ( ; rescaled > 0 ; --rescaled ) {
+            i_nu *= 1.0E-18F;
+            i_pnu *= 1.0E-18F;
+        }
         for ( int i = 1 ; i <= nl ; ++i ) {
             /*cstat -CERT-FLP36-C*/
             const float k_nu_temp = ( ( mu + static_cast<float>( i ) )*xi2*k_nu1 ) + Kmu;
-- 
2.43.0

