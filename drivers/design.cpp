// D01 designed bi-quads are the bilinear transform of their analog prototype, D02 and stable; D03 decibels; O01 the one-pole filter, O02 its design
//@ .*: native=20000 budget=120
#include "dsp/filter.hpp"
#include "biquad_common.hpp"
#include "dsp/onepole-design.hpp"
using dsp::FilterResponse;

// ---- D01
struct analog { real n2, n1, n0, d2, d1, d0; };     // (n2 s^2 + n1 s + n0) / (d2 s^2 + d1 s + d0)

struct request { real dB, f, fs, Q, K; };
request any_request()
{
    request r;
#ifdef VC_NATIVE
    r.fs = vc_in<double>( 1, 1000 ); r.f = r.fs * vc_in<double>( 0.01, 0.49 ); r.Q = vc_in<double>( 0.1, 10 ); r.dB = vc_in<double>( -30, 30 );
#else
    r.fs = vc_any<real>(); r.f = vc_any<real>(); r.Q = vc_any<real>(); r.dB = vc_any<real>();
    vc_assume( r.Q > 0 ); vc_assume( r.fs > 0 ); vc_assume( r.f > 0 ); vc_assume( r.f / r.fs < real( 0.5 ) );
#endif
    r.K = std::tan( vc_pi<real> * r.f / r.fs );
    return r;
}
real gain( request r ) { return std::pow( real( 10 ), std::fabs( r.dB ) / 20 ); }
// prototypes, for a frequency of 1; |dB gain| is V
template< FilterResponse R > analog prototype( request r )
{
    real q = 1 / r.Q, V = gain( r ), w = std::sqrt( real( 2 ) ), v = std::sqrt( 2 * V );
    bool boost = r.dB >= 0;
    if constexpr ( R == FilterResponse::low_pass  ) return { 0, 0, 1,  1, q, 1 };
    if constexpr ( R == FilterResponse::high_pass ) return { 1, 0, 0,  1, q, 1 };
    if constexpr ( R == FilterResponse::band_pass ) return { 0, q, 0,  1, q, 1 };
    if constexpr ( R == FilterResponse::band_stop ) return { 1, 0, 1,  1, q, 1 };
    if constexpr ( R == FilterResponse::low_shelf )  { if ( boost ) return { 1, v, V,  1, w, 1 }; else return { 1, w, 1,  1, v, V }; }
    if constexpr ( R == FilterResponse::high_shelf ) { if ( boost ) return { V, v, 1,  1, w, 1 }; else return { 1, w, 1,  V, v, 1 }; }
    if constexpr ( R == FilterResponse::peak_band_eq ) { if ( boost ) return { 1, V*q, 1,  1, q, 1 }; else return { 1, q, 1,  1, V*q, 1 }; }
}
// s = (1 - u) / (K (1 + u)), u = 1/z
coeffs bilinear( analog a, real K )
{
    real d = a.d2 + a.d1*K + a.d0*K*K;
    return { ( a.n2 + a.n1*K + a.n0*K*K ) / d, 2 * ( a.n0*K*K - a.n2 ) / d, ( a.n2 - a.n1*K + a.n0*K*K ) / d,
                                               2 * ( a.d0*K*K - a.d2 ) / d, ( a.d2 - a.d1*K + a.d0*K*K ) / d };
}
template< FilterResponse R > auto designed( request r ) { return dsp::make_biquad( dsp::biquad_design<R>( r.dB, r.f, r.fs, r.Q ) ); }

template< FilterResponse R > void transformed()
{
    request r = any_request();
    vc_cover( "any request" );
    Bq q = designed<R>( r );
    analog a = prototype<R>( r ); real K = r.K;
    coeffs c = bilinear( a, K );
    has( q, c, "bilinear transform of the analog prototype" ); in_state( q, 0, 0, "initial state 0" );
    // what a user sees: gains at frequency 0, at half the sampling rate and at the frequency asked for
    auto b = q.coeff_b(); auto p = q.coeff_a();
    real V = gain( r ), g = r.dB >= 0 ? V : 1 / V;
    real dc = R == FilterResponse::high_pass || R == FilterResponse::band_pass ? 0 : R == FilterResponse::low_shelf ? g : 1;
    real ny = R == FilterResponse::low_pass  || R == FilterResponse::band_pass ? 0 : R == FilterResponse::high_shelf ? g : 1;
    vc_same( real( b.b0 + b.b1 + b.b2 ), real( dc * ( 1 + p.a1 + p.a2 ) ), "gain at frequency 0" );
    vc_same( real( b.b0 - b.b1 + b.b2 ), real( ny * ( 1 - p.a1 + p.a2 ) ), "gain at half the sampling frequency" );
    Cx h = response( q, r.f / r.fs );
    real m = h.real()*h.real() + h.imag()*h.imag();
    real want = R == FilterResponse::low_pass || R == FilterResponse::high_pass ? r.Q*r.Q : R == FilterResponse::band_pass ? 1 : R == FilterResponse::band_stop ? 0
              : R == FilterResponse::peak_band_eq ? g*g : ( 1 + g*g ) / 2;
    if constexpr ( R == FilterResponse::low_shelf || R == FilterResponse::high_shelf ) vc_same( m, real( r.dB >= 0 ? ( 2*V + ( V-1 )*( V-1 ) ) / 2 : 2 / ( 2*V + ( V-1 )*( V-1 ) ) ), "squared gain at the design frequency" );
    else vc_same( m, want, "squared gain at the design frequency" );
}
#define RESPONSES  X(low_pass) X(high_pass) X(band_pass) X(band_stop) X(low_shelf) X(high_shelf) X(peak_band_eq)
#define X(R) VC_HARNESS( prototype_##R ) { transformed<FilterResponse::R>(); }
RESPONSES
#undef X
// parameters of other arithmetic types
VC_HARNESS( prototype_mixed_arguments )
{
    int32_t fs = vc_in<int32_t>( 2, 100000 ), f = vc_in<int32_t>( 1, 49999 ), Q = vc_in<int32_t>( 1, 100 );
    vc_assume( 2*f < fs ); vc_cover( "integral arguments" );
    auto q = dsp::biquad_design<FilterResponse::low_pass>( real( 0 ), f, fs, Q ), p = dsp::biquad_design<FilterResponse::low_pass>( real( 0 ), real( f ), real( fs ), real( Q ) );
    has( dsp::make_biquad( q ), { p.b.b0, p.b.b1, p.b.b2, p.a.a1, p.a.a2 }, "as with real arguments" );
}
// the ready-made filters
VC_HARNESS( prototype_filters )
{
    request r = any_request(); r.dB = 0;
    vc_cover( "any request" );
    dsp::Lpf<real> lp( r.f, r.fs, r.Q ); dsp::Hpf<real> hp( r.f, r.fs, r.Q );
    Bq l = designed<FilterResponse::low_pass>( r ), h = designed<FilterResponse::high_pass>( r );
    for ( int n = 0; n < 3; ++n ) { real x = vc_any<real>(); vc_same( lp( x ), l.step( x ), "Lpf filters like the low pass design" ); vc_same( hp( x ), h.step( x ), "Hpf filters like the high pass design" ); }
}

// ---- D02
template< FilterResponse R > void stable()
{
    request r = any_request();
    vc_cover( "any request" );
    auto c = designed<R>( r ).coeff_a();
    vc_assert( c.a2 < 1, "poles inside the unit circle" ); vc_assert( c.a1 < 1 + c.a2, "poles inside the unit circle" ); vc_assert( -c.a1 < 1 + c.a2, "poles inside the unit circle" );
}
#define X(R) VC_HARNESS( stable_##R ) { stable<FilterResponse::R>(); }
RESPONSES
#undef X

// ---- D03
VC_HARNESS( decibel )
{
    real x = vc_any<real>(), y = vc_any<real>(), d = vc_any<real>();
#ifdef VC_NATIVE
    x = std::fabs( x ); y = std::fabs( y ); vc_assume( x > 1e-3L ); vc_assume( y > 1e-3L ); vc_assume( std::fabs( d ) < 200 );
#else
    vc_assume( x > 0 ); vc_assume( y > 0 );
#endif
    vc_cover( "positive signals" );
    vc_same( dsp::dbP( x, y ), real( 10 * std::log10( x / y ) ), "dbP is ten times the logarithm of the ratio" );
    vc_same( dsp::dbV( x, y ), real( 20 * std::log10( x / y ) ), "dbV is twenty times the logarithm of the ratio" );
    real a = d < 0 ? -d : d;
    vc_same( dsp::dbP_factor( d ), real( std::pow( real( 10 ), a / 10 ) ), "dbP_factor is 10^(|d|/10)" );
    vc_same( dsp::dbV_factor( d ), real( std::pow( real( 10 ), a / 20 ) ), "dbV_factor is 10^(|d|/20)" );
    vc_same( real( dsp::dbV_factor( d ) * dsp::dbV_factor( d ) ), dsp::dbP_factor( d ), "a factor in volts is the root of the factor in power" );
    real p = dsp::dbP_factor( dsp::dbP( x, y ) ), v = dsp::dbV_factor( dsp::dbV( x, y ) );
    vc_same( p, real( x >= y ? x / y : y / x ), "dbP_factor undoes dbP" );
    vc_same( v, real( x >= y ? x / y : y / x ), "dbV_factor undoes dbV" );
}
VC_HARNESS( decibel_integers )
{
    int32_t d = vc_in<int32_t>( -200, 200 ), x = vc_in<int32_t>( 1, 100000 ), y = vc_in<int32_t>( 1, 100000 );
    vc_cover( "integers" );
    float a = d < 0 ? -d : d;
    vc_same( dsp::dbV_factor( d ), float( std::pow( float( 10 ), a / 20 ) ), "integral decibels" ); vc_same( dsp::dbP_factor( d ), float( std::pow( float( 10 ), a / 10 ) ), "integral decibels" );
    vc_same( dsp::dbP( x, y ), float( 10 * std::log10( float( x ) / float( y ) ) ), "integral signals" );
    vc_same( dsp::dbV( x, y ), float( 20 * std::log10( float( x ) / float( y ) ) ), "integral signals" );
    real r = vc_any<real>(); vc_assume( r > 0 );
    vc_same( real( dsp::dbP( x, r ) ), real( 10 * std::log10( real( x ) / r ) ), "integral and real signal" ); vc_same( real( dsp::dbP( r, x ) ), real( 10 * std::log10( r / real( x ) ) ), "integral and real signal" );
    vc_same( real( dsp::dbV( x, r ) ), real( 20 * std::log10( real( x ) / r ) ), "integral and real signal" ); vc_same( real( dsp::dbV( r, x ) ), real( 20 * std::log10( r / real( x ) ) ), "integral and real signal" );
}
VC_HARNESS( decibel_prewarp )
{
    request r = any_request(); vc_cover( "any frequency" );
    vc_same( dsp::prewarp( r.f, r.fs ), r.K, "prewarp is tan(pi f/fs)" );
    int32_t f = vc_in<int32_t>( 1, 1000 ), fs = vc_in<int32_t>( 2001, 10000 );
    vc_same( dsp::prewarp( f, fs ), float( std::tan( vc_pi<float> * float( f ) / float( fs ) ) ), "integral frequencies" );
}

// ---- O01
using Op = dsp::OnePoleT<real>;
void has( Op const & p, real b0, real a1, char const * n ) { vc_same( p.coeff_b().b0, b0, n ); vc_same( p.coeff_a().a1, a1, n ); }
VC_HARNESS( onepole_filter )
{
    real b0 = vc_any<real>(), a1 = vc_any<real>(), c0 = vc_any<real>(), d1 = vc_any<real>();
    Op p( Op::B{ b0 }, Op::A{ a1 } ), q( Op::B{ c0 }, Op::A{ d1 } ), e, f( Op::B{ b0 } );
    vc_cover( "any coefficients" );
    has( e, 0, 0, "default" ); has( f, b0, 0, "b-coefficient only" ); has( p, b0, a1, "coefficients as given" );
    vc_same( e.state().v1, real( 0 ), "initial state 0" ); vc_same( f.state().v1, real( 0 ), "initial state 0" ); vc_same( p.state().v1, real( 0 ), "initial state 0" );
    real x0 = vc_any<real>(), x1 = vc_any<real>(), y0 = p.step( x0 ), y1 = p.step( x1 );
    vc_same( y0, real( b0*x0 ), "first output" ); vc_same( y1, real( b0*x1 - a1*y0 ), "y[n] = b0 x[n] - a1 y[n-1]" );
    vc_generalize( &p, sizeof p );
    y0 = p.step( x0 ); y1 = p.step( x1 );
    vc_same( y1, real( b0*x1 - a1*y0 ), "y[n] = b0 x[n] - a1 y[n-1], any later n" );
    has( p, b0, a1, "steps leave the coefficients alone" );
    q.step( x0 ); real ps = p.state().v1, qs = q.state().v1;
    Op c = p; c.step( x1 ); vc_same( p.state().v1, ps, "a copy is independent" );
    p.swap( q ); has( p, c0, d1, "swap" ); has( q, b0, a1, "swap" ); vc_same( p.state().v1, qs, "swap" ); vc_same( q.state().v1, ps, "swap" );
    p.reset(); has( p, c0, d1, "reset() keeps the coefficients" ); vc_same( p.state().v1, real( 0 ), "reset() clears the state" );
    vc_same( p.step( x1 ), real( c0*x1 ), "after reset() like new" );
}
VC_HARNESS( onepole_pole )
{
    real b0 = vc_any<real>(), a1 = vc_any<real>(), x = vc_any<real>(), y = vc_any<real>();
    Op p( Op::B{ b0 }, Op::A{ a1 } );
    vc_nonzero( x ); if ( vc_is_native() ) vc_assume( std::fabs( std::fabs( double( a1 ) ) - 1 ) > 1e-3 );
    vc_cover( "any coefficients" );
    same( p.poles().s0, Cx( -a1, 0 ), "the pole is -a1" ); same( p.zeros().s0, Cx( 0, 0 ), "the zero is 0" );
    same( dsp::solve( x, y ).s0, Cx( -y/x, 0 ), "solve: root of x z + y" );
    vc_same( bool( p.is_stable() ), bool( ( a1 <= 1 ) & ( a1 >= -1 ) ), "stable iff the pole is within the unit circle" );
    has( p, b0, a1, "looking changes nothing" ); vc_same( p.state().v1, real( 0 ), "looking changes nothing" );
}
VC_HARNESS( onepole_response )
{
    real b0 = vc_any<real>(), a1 = vc_any<real>(), f = vc_any<real>();
    Op p( Op::B{ b0 }, Op::A{ a1 } );
    real const C = std::cos( 2 * vc_pi<real> * f ), S = std::sin( 2 * vc_pi<real> * f );
    Cx den = real( 1 ) + a1 * Cx( C, -S );
    vc_nonzero( real( den.real()*den.real() + den.imag()*den.imag() ) );
    vc_cover( "any coefficients and frequency" );
    same( response( p, f ) * den, Cx( b0, 0 ), "H (1 + a1/z) = b0 at z = exp(2 pi j f)" );
}
// ---- O02
template< FilterResponse R > void onepole_designed()
{
    request r = any_request(); vc_cover( "any request" );
    Op p = dsp::make_onepole( dsp::onepole_design<R>( r.f, r.fs ) );
    real b0 = p.coeff_b().b0, a1 = p.coeff_a().a1, k = R == FilterResponse::low_pass ? 1 : -1;
    vc_same( b0, real( 1 + k*a1 ), "gain 1 in the pass band: b0 = 1 + k a1 at z = k" );
    vc_assert( k*a1 < 0, "pole on the side of the pass band" ); vc_assert( k*a1 > -1, "stable" );
    vc_assert( p.is_stable(), "stable" ); vc_assert( b0 > 0, "positive gain" );
    real x = R == FilterResponse::low_pass ? r.f / r.fs : real( 0.5 ) - r.f / r.fs;
    vc_same( real( -k*a1 ), real( std::exp( -vc_pi<real> * x ) ), "decay exp(-pi f/fs), mirrored for the high pass" );
    vc_same( p.state().v1, real( 0 ), "initial state 0" );
}
template< FilterResponse R, typename F, typename S > void onepole_mixed( F f, S fs )
{
    auto p = dsp::make_onepole( dsp::onepole_design<R>( f, fs ) ); auto q = dsp::make_onepole( dsp::onepole_design<R>( real( f ), real( fs ) ) );
    vc_assert( real( p.coeff_b().b0 ) == q.coeff_b().b0, "as with arguments of the common type" ); vc_assert( real( p.coeff_a().a1 ) == q.coeff_a().a1, "as with arguments of the common type" );
}
VC_HARNESS( onepole_design_mixed )
{
    request r = any_request();
    int32_t fs = vc_in<int32_t>( 2, 100000 ), f = vc_in<int32_t>( 1, 49999 ); vc_assume( 2*f < fs ); vc_cover( "integral arguments" );
    onepole_mixed<FilterResponse::low_pass>( f, real( fs ) ); onepole_mixed<FilterResponse::high_pass>( f, real( fs ) );
    onepole_mixed<FilterResponse::low_pass>( r.f, fs ); onepole_mixed<FilterResponse::high_pass>( r.f, fs );
    auto i = dsp::make_onepole( dsp::onepole_design<FilterResponse::low_pass>( f, fs ) ); auto j = dsp::make_onepole( dsp::onepole_design<FilterResponse::high_pass>( f, fs ) );
    vc_same( i.coeff_a().a1, float( -std::exp( -vc_pi<float> * float( f ) / float( fs ) ) ), "integral arguments" );
    vc_same( j.coeff_a().a1, float( std::exp( -vc_pi<float> * ( 0.5f - float( f ) / float( fs ) ) ) ), "integral arguments" );
}
VC_HARNESS( onepole_design_low_pass ) { onepole_designed<FilterResponse::low_pass>(); }
VC_HARNESS( onepole_design_high_pass ) { onepole_designed<FilterResponse::high_pass>(); }
