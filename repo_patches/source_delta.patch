From c4337405724001d176a94f4dab3ce2b13ced73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 01/23] fix: initialise the Kalman gain on construction

kalman_gain() called before the first update() returned indeterminate values.
---
 include/dsp/kalman.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/kalman.hpp b/include/dsp/kalman.hpp
index dc44dce..f6f34b5 100644
--- a/include/dsp/kalman.hpp
+++ b/include/dsp/kalman.hpp
@@ -63,6 +63,7 @@ public:
         , H( H_)
         , Q( Q_)
         , R( R_)
+        , K( 0 )
         , P( P_)
         , xhat( xhat_)
         , t(  0  )
-- 
2.43.0


From 23fd8644666c5ef869d5581e1d01094cbe61383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 02/23] fix: products of non-square matrices and vectors

A*B, x*A and A*x were declared for operands of non-conforming shapes: for more columns than
rows they read outside their operands, and x*A wrote outside its result.
---
 include/num/matrix.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 5d7912b..cd9684d 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -349,6 +349,22 @@ constexpr matrix<T,N,M> operator*( matrix<T,1,1> const & v, matrix<T,N,M> const
     return A * v(0);
 }
 
+// colvec * A1x1, also a proper matrix product
+
+template< typename T, int N >
+constexpr colvec<T,N> operator*( colvec<T,N> const & x, matrix<T,1,1> const & v )
+{
+    return x * v(0);
+}
+
+// A1x1 * rowvec, also a proper matrix product
+
+template< typename T, int M >
+constexpr rowvec<T,M> operator*( matrix<T,1,1> const & v, rowvec<T,M> const & x )
+{
+    return x * v(0);
+}
+
 // A + A:
 
 template< typename T, int N, int M >
@@ -379,14 +395,14 @@ constexpr matrix<T,N,M> operator-( matrix<T,N,M> const & a, matrix<T,N,M> const
 
 // A * B:
 
-template< typename T, int N, int M >
-constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const & B )
+template< typename T, int N, int K, int M >
+constexpr matrix<T,N,M> operator*( matrix<T,N,K> const & A, matrix<T,K,M> const & B )
 {
     matrix<T,N,M> result(0);
 
     for ( int row = 0; row < A.rows(); ++row )
     {
-        for ( int col = 0; col < A.columns(); ++col )
+        for ( int col = 0; col < B.columns(); ++col )
         {
             for ( int k = 0; k < A.columns(); ++k )
             {
@@ -401,9 +417,9 @@ constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const
 // x * A - rowvec:
 
 template< typename T, int N, int M >
-constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
+constexpr rowvec<T,M> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
 {
-    rowvec<T,N> result( 0 );
+    rowvec<T,M> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
     {
         for ( int col = 0; col < A.columns(); ++col )
@@ -417,7 +433,7 @@ constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A
 // A * x - colvec:
 
 template< typename T, int N, int M >
-constexpr colvec<T,N> operator*( matrix<T,N,M> const & A, colvec<T,N> const & x )
+constexpr colvec<T,N> operator*( matrix<T,N,M> const & A, colvec<T,M> const & x )
 {
     colvec<T,N> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
-- 
2.43.0


From 53d7d824e09e6c290a0bc9815c8c1ed38449a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 03/23] fix: round fixed_point values to nearest without losing
 bits

Adding one half in the type of the value is itself rounded: fixed_point<int32_t,15>(8388609.f/65536),
which is representable, was stored one too high; the value just below half a unit became one unit.
---
 include/num/fixed-point.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 533bb8a..e341e88 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -52,6 +52,17 @@ constexpr auto power2( std20::int64_t n )
     return result;
 }
 
+// Nearest integral value, halves away from zero; no rounding in the computation itself:
+
+template< typename T, typename Real >
+constexpr T rounded( Real value )
+{
+    const T whole = static_cast<T>( value );
+    const Real fraction = value - whole;
+
+    return static_cast<T>( whole + ( fraction >= Real(0.5) ) - ( fraction <= Real(-0.5) ) );
+}
+
 } // namespace detail
 
 // fixed_point:
@@ -102,11 +113,11 @@ public:
     {}
 
     constexpr fixed_point( float value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0f ? 0.5f : -0.5f) ) )
+    : storage( detail::rounded<T>( detail::power2(F) * value ) )
     {}
 
     constexpr fixed_point( double value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0 ? 0.5 : -0.5) ) )
+    : storage( detail::rounded<T>( detail::power2(F) * value ) )
     {}
 
     // Observers:
-- 
2.43.0


From b8152e7fc907b361d052990dfaefdaddb2fcf6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 04/23] fix: fixed_point::as<U>() for U narrower than the
 representation

fixed_point<int32_t,15>(1).as<int16_t>() yielded 0: the representation was cut to 16 bits first.
---
 include/num/fixed-point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index e341e88..e614b92 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -140,7 +140,10 @@ public:
     template< typename U >
     constexpr auto as() const
     {
-        return static_cast<U>( underlying_value() ) / detail::power2(F);
+        // divide before narrowing to U, not after:
+        using quotient_t = decltype( U() / detail::power2(F) );
+
+        return static_cast<quotient_t>( underlying_value() ) / detail::power2(F);
     }
 
     constexpr auto as_double() const
-- 
2.43.0


From 7781bcc79b76638a7874ab2c57115395e950daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 05/23] fix: pole and stability of the one-pole filter

poles() returned 7 and is_stable() returned true whatever the coefficients.
---
 include/dsp/onepole.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index f7bd41c..ec3af53 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -65,7 +65,7 @@ struct SolutionT
     complex_t s0;
 };
 
-// Solve a quadratic polynomial: ax + b -> k(x - z1)
+// Solve a linear polynomial: ax + b -> k(x - z1)
 
 template< typename V >
 auto solve( V a, V b )
@@ -75,7 +75,7 @@ auto solve( V a, V b )
     // normalize:
     b /= a;
 
-    return Solution{ 7 };
+    return Solution{ -b };
 }
 
 // normalized a:
@@ -205,11 +205,11 @@ public:
         return SolutionT<T>{};
     }
 
-    // stable if the magnitude of both poles is less or equal to leq unity:
+    // stable if the magnitude of the pole is less or equal to leq unity:
 
     auto is_stable() const
     {
-        return true;
+        return abs( poles().s0 ) <= value_type{1};
     }
 
     // Modifiers:
-- 
2.43.0


From 70075bdc62d9fb4a60c83c4d19f590da4029f475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 06/23] fix: unity gain of the one-pole filter designs

Unqualified abs(a1) selected abs(int): b0 was 1 and the pass-band gain 1/(1-|a1|).
---
 include/dsp/onepole-design.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b823e78..8cd0a42 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -12,6 +12,7 @@
 #ifndef DSP_ONEPOLE_DESIGN_HPP_INCLUDED
 #define DSP_ONEPOLE_DESIGN_HPP_INCLUDED
 
+#include <cmath>
 #include <iostream>
 
 #include "dsp/onepole.hpp"
@@ -75,8 +76,8 @@ struct onepole_design_method<FilterResponse::low_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = -exp( -T{1} * num::pi<T> * f / fs );
-        const auto b0 = T{1} - abs(a1);
+        const auto a1 = -std::exp( -T{1} * num::pi<T> * f / fs );
+        const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
@@ -89,8 +90,8 @@ struct onepole_design_method<FilterResponse::high_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = +exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
-        const auto b0 = T{1} - abs(a1);
+        const auto a1 = +std::exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
+        const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
-- 
2.43.0


From 671926196d3efe16b7a6371ae9b1c433deb1c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 07/23] fix: dbV_factor() is 10^(|dB|/20)

It was half of 10^(|dB|/10): a shelf or peak filter designed for 0 dB halved the signal.
---
 include/dsp/filter-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 162b017..e1983e6 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -56,7 +56,7 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv ) / T{2};
+    return std::pow( T{10}, std::abs( dbv ) / T{20} );
 }
 
 } // namespace dsp
-- 
2.43.0


From ee61ad610ca015ca46fd35f4f96a3e2a4e4c8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 08/23] fix: decibel factors of integral values

---
 include/dsp/filter-design.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index e1983e6..40b980f 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -40,7 +40,9 @@ auto dbP( T vout, core::identity_t<T> vin )
 template< typename T >
 auto dbP_factor( T dbv )
 {
-    return std::pow( T{10}, std::abs( dbv ) / T{10} );
+    using U = std::common_type_t<float, T>;
+
+    return std::pow( U{10}, std::abs( core::as<U>(dbv) ) / U{10} );
 }
 
 // factor as dbV
@@ -56,7 +58,9 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return std::pow( T{10}, std::abs( dbv ) / T{20} );
+    using U = std::common_type_t<float, T>;
+
+    return std::pow( U{10}, std::abs( core::as<U>(dbv) ) / U{20} );
 }
 
 } // namespace dsp
-- 
2.43.0


From 9ac4bbfb58b76ebf3b71cea4dc215139e2f9011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:25 +0000
Subject: [PATCH 09/23] fix: ripple of the Chebyshev type 1 design

---
 include/dsp/chebyshev-design.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index f24e5f3..04f20cd 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -116,7 +116,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
     const auto r     = N % 2;
     const auto K     = ( N - r ) / 2;
 
-    const auto a     = std::asinh( estop ) / N;
+    const auto a     = std::asinh( 1 / epass ) / N;
     const auto W3    = real( Wpass * std::cosh( std::acosh( complex_t{1} / complex_t{epass} ) / complex_t(N) ) );
     const auto f3    = (fs / num::pi<T> ) * std::atan( std::pow( W3, s ) );
     const auto W0    = std::sinh( a ) * Wpass;
@@ -128,7 +128,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
 
     if ( r == 1 )
     {
-        const auto G = 1 / (1 + W0);
+        const auto G = W0 / (1 + W0);
 
         A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
         B.emplace_back(   G,   s * G            , T{0} );
@@ -139,7 +139,8 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
         const auto th = num::pi<T> * (N - 1 + 2 * i) / (2 * N);
         const auto Wi = Wpass * sin(th);
         const auto D  =  1 - 2 * W0 * cos( th ) + W0 * W0 + Wi * Wi;
-        const auto G  = (W0 * W0 + Wi * Wi ) / D;
+        const auto H0 = r == 0 && i == 1 ? 1 / std::sqrt( 1 + epass * epass ) : T{1};   // even order: start of ripple
+        const auto G  = H0 * (W0 * W0 + Wi * Wi ) / D;
         const auto a1 =  2 * (W0 * W0 + Wi * Wi - 1) / D;
         const auto a2 = (1 + 2 * W0 * cos(th) + W0 * W0 + Wi * Wi) / D;
 
-- 
2.43.0


From 4db292339ba34ac89eb71f3e282fe0351985aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 10/23] fix: lazily written values stay in their field

write_lazy( value ) shifted the value to the field but did not mask it to the
field, unlike write( value ), so a too wide value overwrote neighbouring bits.
---
 include/mcu/register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/register.hpp b/include/mcu/register.hpp
index 48f5671..50bcff8 100644
--- a/include/mcu/register.hpp
+++ b/include/mcu/register.hpp
@@ -444,7 +444,7 @@ public:
 
     static auto write_lazy( value_type value )
     {
-        return write_proxy< T, io, address, rngmask<T>(hi,lo), 0 >{ shl(value, lo) };
+        return write_proxy< T, io, address, rngmask<T>(hi,lo), 0 >{ static_cast<T>( shl(value, lo) & rngmask<T>(hi,lo) ) };
     }
 
     // Set a single bit:
-- 
2.43.0


From ca7b8801df55bdbe733d4d53ae41c45d235ebb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 11/23] fix: return the compare values of timers 0 and 1

current( a ) and current( b ) constructed the value and dropped it.
---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 9faf03d..175b9f2 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -955,7 +955,7 @@ namespace tc0
 
             inline auto current( a )
             {
-                a{ reg::ocr0a::whole::read() };
+                return a{ reg::ocr0a::whole::read() };
             }
 
             inline auto set( a v )
@@ -965,7 +965,7 @@ namespace tc0
 
             inline auto current( b )
             {
-                b{ reg::ocr0b::whole::read() };
+                return b{ reg::ocr0b::whole::read() };
             }
 
             inline auto set( b v )
@@ -1380,7 +1380,7 @@ namespace tc1
 
             inline auto current( a )
             {
-                a{ reg::ocr1a::whole::read() };
+                return a{ reg::ocr1a::whole::read() };
             }
 
             inline auto set( a v )
@@ -1390,7 +1390,7 @@ namespace tc1
 
             inline auto current( b )
             {
-                b{ reg::ocr1b::whole::read() };
+                return b{ reg::ocr1b::whole::read() };
             }
 
             inline auto set( b v )
-- 
2.43.0


From 5f3c868a2ee21e2eb5d8242ac5be368fb1711fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 12/23] fix: report the waveform that was set on timers 0 and 1

The upper waveform bits, already shifted down by read(), weigh 4: they were
shifted by the position of the bit in its register, 3.
---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 175b9f2..54604bc 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -899,7 +899,7 @@ namespace tc0
 
         inline auto current( waveform w )
         {
-            return waveform( shl(reg::tccr0b::wgm02::read(), WGM02) + reg::tccr0a::wgm0::read() );
+            return waveform( shl(reg::tccr0b::wgm02::read(), 2) + reg::tccr0a::wgm0::read() );
         }
 
         inline auto set( waveform w )
@@ -1324,7 +1324,7 @@ namespace tc1
 
         inline auto current( waveform )
         {
-            return waveform( shl(reg::tccr1b::wgm1::read(), WGM12) + reg::tccr1a::wgm1::read() );
+            return waveform( shl(reg::tccr1b::wgm1::read(), 2) + reg::tccr1a::wgm1::read() );
         }
 
         inline auto set( waveform w )
-- 
2.43.0


From 2d0314658cbbe6fc6012dc7ec6ab5d764e11c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:07 +0000
Subject: [PATCH 13/23] fix: force-compare bits of timer 1 are in TCCR1C

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 54604bc..e615433 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1131,8 +1131,8 @@ namespace tc1
         namespace tccr1c
         {
             using whole = register8_t< rw_t, tccr1c_addr >;
-            using foc1a = bitfield8_t< rw_t, tccr1a_addr, FOC1A >;
-            using foc1b = bitfield8_t< rw_t, tccr1a_addr, FOC1B >;
+            using foc1a = bitfield8_t< rw_t, tccr1c_addr, FOC1A >;
+            using foc1b = bitfield8_t< rw_t, tccr1c_addr, FOC1B >;
 
             using value_type = whole::value_type;
         }
-- 
2.43.0


From f9c6ba2998e5a939536815863cb0092f01e894c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 14/23] fix: clear exactly the interrupt flag asked for

In the flag registers TIFR0, TIFR1 and EIFR a read-modify-write writes one to,
and thereby clears, every pending flag. The pin change flags were written zero,
which does not clear them, and one for the others, which does.
---
 include/mcu/atmega328.hpp | 18 +++++++++---------
 include/mcu/register.hpp  | 20 ++++++++++++++++++++
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index e615433..26909e7 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -516,7 +516,7 @@ namespace ei
     // 17.2.3 EIFR: External Interrupt Flag Register
 
     template< eint i >
-    using eifr = bitfield8_t< rc_w1_t, eifr_addr, to_integral(i) >;
+    using eifr = bitfield8_t< rcf_w1_t, eifr_addr, to_integral(i) >;
 
     inline auto external_int0_flag()
     {
@@ -576,7 +576,7 @@ namespace ei
     // 17.2.5 PCIFR: Pin Change Interrupt Flag Register
 
     template< pcint i >
-    using pcifr = bitfield8_t< rw_t, pcifr_addr, to_integral(i) >;
+    using pcifr = bitfield8_t< rcf_w1_t, pcifr_addr, to_integral(i) >;
 
     inline auto pin_change_int2_flag()
     {
@@ -798,9 +798,9 @@ namespace tc0
         namespace tifr0
         {
             using whole = register8_t< rw_t, tifr0_addr >;
-            using ocf0b = bitfield8_t< rc_w1_t, tifr0_addr, OCF0B >;
-            using ocf0a = bitfield8_t< rc_w1_t, tifr0_addr, OCF0A >;
-            using tov0  = bitfield8_t< rc_w1_t, tifr0_addr, TOV0  >;
+            using ocf0b = bitfield8_t< rcf_w1_t, tifr0_addr, OCF0B >;
+            using ocf0a = bitfield8_t< rcf_w1_t, tifr0_addr, OCF0A >;
+            using tov0  = bitfield8_t< rcf_w1_t, tifr0_addr, TOV0  >;
 
             using value_type = whole::value_type;
         }
@@ -1199,10 +1199,10 @@ namespace tc1
         namespace tifr1
         {
             using whole = register8_t< rc_w1_t, tifr1_addr >;
-            using icf1  = bitfield8_t< rc_w1_t, tifr1_addr, ICF1  >;
-            using ocf1b = bitfield8_t< rc_w1_t, tifr1_addr, OCF1B >;
-            using ocf1a = bitfield8_t< rc_w1_t, tifr1_addr, OCF1A >;
-            using tov1  = bitfield8_t< rc_w1_t, tifr1_addr, TOV1  >;
+            using icf1  = bitfield8_t< rcf_w1_t, tifr1_addr, ICF1  >;
+            using ocf1b = bitfield8_t< rcf_w1_t, tifr1_addr, OCF1B >;
+            using ocf1a = bitfield8_t< rcf_w1_t, tifr1_addr, OCF1A >;
+            using tov1  = bitfield8_t< rcf_w1_t, tifr1_addr, TOV1  >;
 
             using value_type = whole::value_type;
         }
diff --git a/include/mcu/register.hpp b/include/mcu/register.hpp
index 50bcff8..229a0de 100644
--- a/include/mcu/register.hpp
+++ b/include/mcu/register.hpp
@@ -208,6 +208,18 @@ struct clearbit_w1_t
     }
 };
 
+// Clear bit by write 1 in a register that has only such bits:
+// a read-modify-write would also clear the other bits that are set.
+
+template< typename T >
+struct clearflag_w1_t
+{
+    static void clear( address_t address, index_t bit )
+    {
+        *to_pointer<T>(address) = bitmask<T>( bit );
+    }
+};
+
 // Clear bit by write 0:
 
 template< typename T >
@@ -284,6 +296,14 @@ struct rc_w1_t : detail::getbit_t<T>, detail::clearbit_w1_t<T>
     static constexpr Mutability mutability = Mutability::rc_w1;
 };
 
+// Read bit, clear bit by write 1 in a register that has only such bits:
+
+template< typename T >
+struct rcf_w1_t : detail::getbit_t<T>, detail::clearflag_w1_t<T>
+{
+    static constexpr Mutability mutability = Mutability::rc_w1;
+};
+
 // Read bit, clear bit by write 0:
 
 template< typename T >
-- 
2.43.0


From 0a3835d8f62db7267c0013328f05d1fe4dd19a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:11 +0000
Subject: [PATCH 15/23] fix: send the data byte, not the address again, over
 TWI

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 26909e7..96d7952 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2079,7 +2079,7 @@ namespace twi
                 if ( expect_status( 0x18 ) )
                     return true;  // error
 
-                data( address );
+                data( byte );
 
                 if ( expect_status( 0x28 ) )
                     return true;  // error
-- 
2.43.0


From 10bdbf6f5bf4f7639817263de30381172a41bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 16/23] fix: enable the pull-ups for SDA and SCL

The pull-ups are enabled by PORTC; writing one to PINC toggles PORTC instead.
---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 96d7952..8362ebe 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1981,8 +1981,8 @@ namespace twi
                 set( twi::enable::interface::on );
 
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
             }
 
             inline auto flag()   { return current( twi::interrupt::flag{} ); }
@@ -2015,8 +2015,8 @@ namespace twi
                 , twi::control::prescale::factor ps = twi::control::prescale::factor::x1 )
             {
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
                 TWSR = 0x00;
-- 
2.43.0


From 31a71c87ecc5d15742b5c7512e6d7b883aaa86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:41 +0000
Subject: [PATCH 17/23] fix: std/tuple.hpp closes its AVR branch (include
 guard's #endif was missing)

---
 include/std/tuple.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/std/tuple.hpp b/include/std/tuple.hpp
index 23e958c..a72018d 100644
--- a/include/std/tuple.hpp
+++ b/include/std/tuple.hpp
@@ -33,4 +33,6 @@ struct ignore
 
 } // namespace std20
 
+#endif // __AVR
+
 #endif // STD_TUPLE_INCLUDED
-- 
2.43.0


From 82e37d746216fac3507ab1774d823ed979006626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:13 +0000
Subject: [PATCH 18/23] fix: AVR complex: unary plus and minus take a complex
 and are defined

---
 include/std/complex.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index f4ad926..058d4cf 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -106,10 +106,16 @@ private:
 // unary:
 
 template< class T >
-constexpr complex<T> operator+( T const & val );
+constexpr complex<T> operator+( complex<T> const & val )
+{
+    return val;
+}
 
 template< class T >
-constexpr complex<T> operator-( complex<T> const & val );
+constexpr complex<T> operator-( complex<T> const & val )
+{
+    return complex<T>( -val.real(), -val.imag() );
+}
 
 // binary:
 
-- 
2.43.0


From a3b2c2687c40b33b80810916e843c93767db8d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:21 +0000
Subject: [PATCH 19/23] fix: AVR complex: assignment operators return the
 object

---
 include/std/complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index 058d4cf..9a07641 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -46,12 +46,14 @@ public:
     {
         re_ = x;
         im_ = T();
+        return *this;
     }
 
     constexpr complex & operator=( complex const & cx )
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     template<class X>
@@ -59,6 +61,7 @@ public:
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     constexpr T real() const
-- 
2.43.0


From d289b617ccfa7cf822cc3804445276855f4166e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:28 +0000
Subject: [PATCH 20/23] fix: AVR complex: compound assignments are defined, so
 that arithmetic links

---
 include/std/complex.hpp | 62 +++++++++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index 9a07641..7e156a6 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -84,22 +84,68 @@ public:
         im_ = value;
     }
 
-    constexpr complex & operator+=( T const & other );
-    constexpr complex & operator-=( T const & other );
-    constexpr complex & operator*=( T const & other );
-    constexpr complex & operator/=( T const & other );
+    constexpr complex & operator+=( T const & other )
+    {
+        re_ += other;
+        return *this;
+    }
+
+    constexpr complex & operator-=( T const & other )
+    {
+        re_ -= other;
+        return *this;
+    }
+
+    constexpr complex & operator*=( T const & other )
+    {
+        re_ *= other;
+        im_ *= other;
+        return *this;
+    }
+
+    constexpr complex & operator/=( T const & other )
+    {
+        re_ /= other;
+        im_ /= other;
+        return *this;
+    }
 
     template<class X>
-    constexpr complex& operator+=( complex<X> const & other);
+    constexpr complex& operator+=( complex<X> const & other)
+    {
+        re_ += other.real();
+        im_ += other.imag();
+        return *this;
+    }
 
     template<class X>
-    constexpr complex& operator-=( complex<X> const & other);
+    constexpr complex& operator-=( complex<X> const & other)
+    {
+        re_ -= other.real();
+        im_ -= other.imag();
+        return *this;
+    }
 
     template<class X>
-    constexpr complex& operator*=( complex<X> const & other);
+    constexpr complex& operator*=( complex<X> const & other)
+    {
+        T const re = re_ * other.real() - im_ * other.imag();
+        T const im = re_ * other.imag() + im_ * other.real();
+        re_ = re;
+        im_ = im;
+        return *this;
+    }
 
     template<class X>
-    constexpr complex& operator/=( complex<X> const & other);
+    constexpr complex& operator/=( complex<X> const & other)
+    {
+        T const n  = other.real() * other.real() + other.imag() * other.imag();
+        T const re = ( re_ * other.real() + im_ * other.imag() ) / n;
+        T const im = ( im_ * other.real() - re_ * other.imag() ) / n;
+        re_ = re;
+        im_ = im;
+        return *this;
+    }
 
 private:
     value_type re_;
-- 
2.43.0


From 3963785dd75e4310b78abec4127f4c1efb0f8bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 21/23] fix: AVR numeric_limits: unsigned types are not signed

---
 include/std/limits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/std/limits.hpp b/include/std/limits.hpp
index 72065b2..0b7f5b0 100644
--- a/include/std/limits.hpp
+++ b/include/std/limits.hpp
@@ -57,7 +57,7 @@ class numeric_limits<__UINT8_TYPE__>
 {
     using T = __UINT8_TYPE__;
 public:
-    static constexpr bool is_signed  = true;
+    static constexpr bool is_signed  = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -83,7 +83,7 @@ class numeric_limits<__UINT16_TYPE__>
 {
     using T = __UINT16_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -109,7 +109,7 @@ class numeric_limits<__UINT32_TYPE__>
 {
     using T = __UINT32_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -135,7 +135,7 @@ class numeric_limits<__UINT64_TYPE__>
 {
     using T = __UINT64_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
-- 
2.43.0


From a4374a72b5f8791dfa5e3b77fa4e5974e1208a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:30 +0000
Subject: [PATCH 22/23] fix: dbP() and dbV() of mixed types truncated the
 second signal to the type of the first

---
 include/dsp/filter-design.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 40b980f..c91e5ee 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -27,12 +27,12 @@ inline auto prewarp( P f, Q fs )
 
 // factor as dbP
 
-template< typename T >
-auto dbP( T vout, core::identity_t<T> vin )
+template< typename T, typename U >
+auto dbP( T vout, U vin )
 {
-    using U = std::common_type_t<float, T>;
+    using R = std::common_type_t<float, T, U>;
 
-    return U{10} * std::log10( core::as<U>(vout) / vin );
+    return R{10} * std::log10( core::as<R>(vout) / core::as<R>(vin) );
 }
 
 // dbP as factor
-- 
2.43.0


From 9394ac0ef34643159c438a463e0a2093dc73bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:11 +0000
Subject: [PATCH 23/23] fix: printing a one-pole filter claimed that it is
 always stable

---
 include/dsp/onepole-io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole-io.hpp b/include/dsp/onepole-io.hpp
index 96ee1fd..c0dafd9 100644
--- a/include/dsp/onepole-io.hpp
+++ b/include/dsp/onepole-io.hpp
@@ -48,7 +48,7 @@ template< typename T, typename S >
 std::ostream & operator<<( std::ostream & os, OnePoleT<T,S> const & bq )
 {
     return os <<
-        "\nOnePole is always stable" <<
+        "\nOnePole is " << ( bq.is_stable() ? "stable:":"NOT stable:" ) <<
         "\na: " << bq.coeff_a() <<
         "\nb: " << bq.coeff_b() <<
         "\nw: " << bq.state() <<
-- 
2.43.0

