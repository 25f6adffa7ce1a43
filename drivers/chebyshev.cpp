// E01 the Chebyshev designs
//@ .*: native=4000 budget=200
#include "dsp/filter.hpp"
#include "dsp/chebyshev-design.hpp"
#include "biquad_common.hpp"
using dsp::FilterResponse;

struct request { bool low; real fs, fp, ft, Ap, As,  s, Wp, Wt, ep, et; };
// any request a filter of order n (L..N) fulfils
template< int N, int L = 1 > int order( request & r );
template< int N, int L = 1 > int any_request( request & r, int type )
{
    r.low = vc_choose( 2 ) == 0;
#ifdef VC_NATIVE
    r.fs = vc_in<double>( 1, 100 ); real a = r.fs * vc_in<double>( 0.02, 0.48 ), b = r.fs * vc_in<double>( 0.02, 0.48 );
    r.fp = r.low ? std::fmin( a, b ) : std::fmax( a, b ); r.ft = r.low ? std::fmax( a, b ) : std::fmin( a, b );
    vc_assume( std::fabs( a - b ) > 0.01L * r.fs );
    r.Ap = vc_in<double>( 0.1, 6 ); r.As = vc_in<double>( 8, 50 );
#else
    r.fs = vc_any<real>(); r.fp = vc_any<real>(); r.ft = vc_any<real>(); r.Ap = vc_any<real>(); r.As = vc_any<real>();
    vc_assume( r.fs > 0 ); vc_assume( r.fp > 0 ); vc_assume( r.ft > 0 ); vc_assume( r.fp < r.fs / 2 ); vc_assume( r.ft < r.fs / 2 );
    vc_assume( r.low ? r.fp < r.ft : r.ft < r.fp );
    vc_assume( r.Ap >= real( 0.01 ) ); vc_assume( r.Ap < r.As );
#endif
    return order<N,L>( r );
}
// the design data by definition, the least order that is enough (L..N)
template< int N, int L > int order( request & r )
{
    r.s = r.low ? 1 : -1;
    real tp = std::tan( vc_pi<real> * r.fp / r.fs ), tt = std::tan( vc_pi<real> * r.ft / r.fs );
    vc_assume( tp > 0 ); vc_assume( tt > 0 ); vc_assume( r.low ? tp < tt : tt < tp );     // tan grows
    r.Wp = r.low ? tp : 1 / tp; r.Wt = r.low ? tt : 1 / tt;
    r.ep = std::sqrt( std::pow( real( 10 ), r.Ap / 10 ) - 1 ); r.et = std::sqrt( std::pow( real( 10 ), r.As / 10 ) - 1 );
    vc_assume( r.ep > 0 ); vc_assume( r.et > r.ep );
    // the least order that is enough
    real nex = std::acosh( r.et / r.ep ) / std::acosh( r.Wt / r.Wp );
    int n;
#ifdef VC_NATIVE
    vc_choose( N - L + 1 ); n = int( std::ceil( nex ) ); vc_assume( n <= N ); vc_assume( n >= L );
#else
    n = L + vc_choose( N - L + 1 ); vc_assume( real( n - 1 ) < nex ); vc_assume( nex <= real( n ) );
#endif
    return n;
}
auto designed( request const & r, int type )
{
    auto kind = r.low ? FilterResponse::low_pass : FilterResponse::high_pass;
    return type == 1 ? dsp::chebyshev1_lp_hp( kind, r.fs, r.fp, r.ft, r.Ap, r.As ) : dsp::chebyshev2_lp_hp( kind, r.fs, r.fp, r.ft, r.Ap, r.As );
}
// poles of the analog filter (type 1) or their reciprocals (type 2), in units of the band edge
Cx pole( request const & r, int type, int n, int i )
{
    real u = std::asinh( type == 1 ? 1 / r.ep : r.et ) / n, th = vc_pi<real> * ( n - 1 + 2*i ) / ( 2*n );
    return { std::sinh( u ) * std::cos( th ), std::cosh( u ) * std::sin( th ) };
}
VC_LEMMA( modulus )( double re, double im, double m )
{
    vc_requires( re < 0, "left of the imaginary axis" ); vc_requires( m == re*re + im*im, "square of the modulus" );
    vc_ensures( m > 0, "not 0" );
}
VC_LEMMA( product )( double a, double b, double p )
{
    vc_requires( a > 0, "positive" ); vc_requires( b > 0, "positive" ); vc_requires( p == a*b, "product" );
    vc_ensures( p > 0, "positive" );
}
template< int Type, int L, int N > void sections()
{
    request r; int n = any_request<N,L>( r, Type );
    vc_cover( "any request" );
    auto c = designed( r, Type );
    vc_same( c.info.N, n, "least order that is enough" );
    vc_same( c.info.Wpass, r.Wp, "reported pass band edge" ); vc_same( c.info.Wstop, r.Wt, "reported stop band edge" ); vc_same( c.info.epass, r.ep, "reported pass band ripple" ); vc_same( c.info.estop, r.et, "reported stop band ripple" );
    vc_same( c.info.Nex, real( std::acosh( r.et / r.ep ) / std::acosh( r.Wt / r.Wp ) ), "reported exact order" ); vc_same( c.info.a, real( std::asinh( Type == 1 ? 1 / r.ep : r.et ) / n ), "reported pole parameter" );
    vc_same( int( c.a.size() ), ( n + 1 ) / 2, "one section for each pole pair" ); vc_same( int( c.b.size() ), ( n + 1 ) / 2, "one section for each pole pair" );
    vc_same( int( c.size() ), ( n + 1 ) / 2, "size() is the number of sections" );
    auto q = dsp::make_biquad_cascade<( N + 1 ) / 2>( c );
    vc_same( int( q.size() ), ( n + 1 ) / 2, "the cascade has these sections" );
    real g = 1;                 // the gain at the pass band's far end, times that
    int k = 0;
    if ( n % 2 == 1 )
    {
        real u = std::asinh( Type == 1 ? 1 / r.ep : r.et ) / n, w = Type == 1 ? std::sinh( u ) * r.Wp : r.Wt / std::sinh( u );   // 1 / (1 + s/w)
        auto a = q.coeff_a( k ); auto b = q.coeff_b( k ); ++k;
        vc_same( a.a1, real( r.s * ( w - 1 ) / ( w + 1 ) ), "real pole" ); vc_same( a.a2, real( 0 ), "real pole" );
        vc_same( b.b1, real( r.s * b.b0 ), "zero of the real pole's section" ); vc_same( b.b2, real( 0 ), "zero of the real pole's section" );
        g *= ( b.b0 + r.s * b.b1 + b.b2 ) / ( 1 + r.s * a.a1 + a.a2 );
    }
    for ( int i = 1; i <= n / 2; ++i, ++k )
    {
        auto a = q.coeff_a( k ); auto b = q.coeff_b( k );
        Cx p = pole( r, Type, n, i );
        // s^2 - 2 Re p s + |p|^2 with s = (1 - u)/(1 + u), u = s/z
        real m = p.real()*p.real() + p.imag()*p.imag(), d0, d1, d2, z0, z1;
        if ( Type == 1 ) { d0 = r.Wp*r.Wp*m; d1 = -2*r.Wp*p.real(); d2 = 1; z0 = 1; z1 = 2; }
        else
        {
            real th = vc_pi<real> * ( n - 1 + 2*i ) / ( 2*n ), w = std::sin( th );     // (Wt^2 + w^2 s^2)
            d0 = r.Wt*r.Wt; d1 = -2*r.Wt*p.real(); d2 = m; z0 = r.Wt*r.Wt + w*w; z1 = 2*( r.Wt*r.Wt - w*w );
        }
        real d = d0 + d1 + d2;
        vc_same( a.a1, real( r.s * 2*( d0 - d2 ) / d ), "pole pair" ); vc_same( a.a2, real( ( d0 - d1 + d2 ) / d ), "pole pair" );
        vc_same( real( b.b1 * z0 ), real( r.s * z1 * b.b0 ), "zero pair" ); vc_same( b.b2, b.b0, "zero pair" );
        g *= ( b.b0 + r.s * b.b1 + b.b2 ) / ( 1 + r.s * a.a1 + a.a2 );
        // Re p < 0: the poles are inside the unit circle
        vc_assert( p.real() < 0, "stable" );
        VC_APPLY( modulus, p.real(), p.imag(), m ); if ( Type == 1 ) VC_APPLY( product, r.Wp*r.Wp, m, d0 );
        vc_assert( d0 > 0, "stable" ); vc_assert( d1 > 0, "stable" ); vc_assert( d2 > 0, "stable" );
    }
    real want = Type == 1 && n % 2 == 0 ? 1 / std::sqrt( 1 + r.ep*r.ep ) : real( 1 );
    if ( N <= 10 ) vc_same( g, want, "gain at frequency 0 (low pass) or half the sampling frequency (high pass)" );
}
VC_HARNESS( sections_type1_n1_6 ) { sections<1,1,6>(); }
VC_HARNESS( sections_type1_n7_8 ) { sections<1,7,8>(); }
VC_HARNESS( sections_type1_n9_10 ) { sections<1,9,10>(); }
VC_HARNESS( sections_type1_n11_12 ) { sections<1,11,12>(); }
VC_HARNESS( sections_type2_n1_6 ) { sections<2,1,6>(); }
VC_HARNESS( sections_type2_n7_8 ) { sections<2,7,8>(); }
VC_HARNESS( sections_type2_n9_10 ) { sections<2,9,10>(); }
VC_HARNESS( sections_type2_n11_12 ) { sections<2,11,12>(); }

template< typename B, typename A > void alike( B const & b, A const & a, coeffs c, char const * name )
{
    vc_same( real( b.b0 ), c.b0, name ); vc_same( real( b.b1 ), c.b1, name ); vc_same( real( b.b2 ), c.b2, name ); vc_same( real( a.a1 ), c.a1, name ); vc_same( real( a.a2 ), c.a2, name );
}
// a request in numbers of any other types is the same request
template< int Type > void mixed()
{
    request r; r.low = vc_choose( 2 ) == 0;
    int32_t fs = vc_in<int32_t>( 4, 40000 ), fp = vc_in<int32_t>( 1, 19999 ), ft = vc_in<int32_t>( 1, 19999 ), Ap = vc_in<int32_t>( 1, 6 ), As = vc_in<int32_t>( 8, 60 );
    vc_assume( 2*fp < fs ); vc_assume( 2*ft < fs ); vc_assume( r.low ? fp < ft : ft < fp );
    r.fs = fs; r.fp = fp; r.ft = ft; r.Ap = Ap; r.As = As;
    order<3>( r );
    vc_cover( "any request in integers" );
    auto kind = r.low ? FilterResponse::low_pass : FilterResponse::high_pass;
    auto c = Type == 1 ? dsp::chebyshev1_lp_hp( kind, fs, fp, r.ft, Ap, r.As ) : dsp::chebyshev2_lp_hp( kind, fs, fp, r.ft, Ap, r.As );
    auto d = designed( r, Type ), e = Type == 1 ? dsp::chebyshev1_lp_hp( kind, r.fs, r.fp, ft, r.Ap, As ) : dsp::chebyshev2_lp_hp( kind, r.fs, r.fp, ft, r.Ap, As );
    vc_same( c.info.N, d.info.N, "the same order" ); vc_same( e.info.N, d.info.N, "the same order" );
    vc_same( int( c.size() ), int( d.size() ), "the same sections" ); vc_same( int( e.size() ), int( d.size() ), "the same sections" );
    for ( int i = 0; i < int( d.size() ); ++i )
    {
        alike( c.b[i], c.a[i], { d.b[i].b0, d.b[i].b1, d.b[i].b2, d.a[i].a1, d.a[i].a2 }, "the same filter" );
        alike( e.b[i], e.a[i], { d.b[i].b0, d.b[i].b1, d.b[i].b2, d.a[i].a1, d.a[i].a2 }, "the same filter" );
    }
}
VC_HARNESS( mixed_type1 ) { mixed<1>(); }
VC_HARNESS( mixed_type2 ) { mixed<2>(); }

// the magnitude response of the whole at any frequency
real T( int n, real x ) { real a = 1, b = x; for ( int i = 1; i < n; ++i ) { real c = 2*x*b - a; a = b; b = c; } return b; }
// the frequency reported for half the power
template< int Type > void half_power()
{
    request r; int n = any_request<12>( r, Type );
    real e = Type == 1 ? 1 / r.ep : r.et;
    if ( vc_choose( 2 ) ) vc_assume( e >= 1 ); else { if ( Type == 2 ) return; vc_assume( 0 < e ); vc_assume( e <= 1 ); }
    vc_cover( "any request" );
    auto c = designed( r, Type );
    real W = std::tan( vc_pi<real> * c.info.f3 / r.fs );
    if ( !r.low ) W = 1 / W;
    vc_same( T( n, Type == 1 ? W / r.Wp : r.Wt / W ), e, "|H|^2 = 1/2 at f3" );
}
VC_HARNESS( half_power_type1 ) { half_power<1>(); }
VC_HARNESS( half_power_type2 ) { half_power<2>(); }
template< int Type, int N > void magnitude()
{
    request r; int n = any_request<N>( r, Type );
    if ( n != N ) return;
    real f = vc_any<real>();
#ifdef VC_NATIVE
    f = r.fs * vc_in<double>( 0.02, 0.48 );
#else
    vc_assume( f > 0 ); vc_assume( f < r.fs / 2 );
#endif
    real W = std::tan( vc_pi<real> * f / r.fs ); vc_assume( W > 0 ); if ( !r.low ) W = 1 / W;
    vc_cover( "any request and frequency" );
    auto q = dsp::make_biquad_cascade<( N + 1 ) / 2>( designed( r, Type ) );
    // the analog filter at s = j W
    Cx num = 1, den = 1; real num2 = 1, den2 = 1;
    auto section = [&]( Cx a, Cx b ) { num *= a; den *= b; num2 *= a.real()*a.real() + a.imag()*a.imag(); den2 *= b.real()*b.real() + b.imag()*b.imag(); };
    real u = std::asinh( Type == 1 ? 1 / r.ep : r.et ) / n, x = Type == 1 ? W / r.Wp : W / r.Wt;
    if ( n % 2 == 1 ) { if ( Type == 1 ) section( std::sinh( u ), Cx( std::sinh( u ), x ) ); else section( 1, Cx( 1, std::sinh( u ) * x ) ); }
    for ( int i = 1; i <= n / 2; ++i )
    {
        Cx p = pole( r, Type, n, i ); real m = p.real()*p.real() + p.imag()*p.imag(), w = std::sin( vc_pi<real> * ( n - 1 + 2*i ) / ( 2*n ) );
        if ( Type == 1 ) section( m, Cx( m - x*x, -2*p.real()*x ) ); else section( 1 - w*w*x*x, Cx( 1 - m*x*x, -2*p.real()*x ) );
    }
    real g2 = 1;
    if ( Type == 1 && n % 2 == 0 ) { num *= 1 / std::sqrt( 1 + r.ep*r.ep ); g2 = 1 / ( 1 + r.ep*r.ep ); }
    Cx h = response( q, f / r.fs );
    if ( vc_is_native() ) { real s = 1 + std::abs( num ); h /= s; num /= s; }
    if ( N <= 3 || vc_is_native() ) same( h * ( r.low ? den : std::conj( den ) ), num, "the analog filter's response at tan(pi f/fs)" );
    num2 *= g2;
    real t;
    if ( Type == 1 ) { t = r.ep * T( n, x ); vc_same( real( num2 * ( 1 + t*t ) ), den2, "its square is 1 / (1 + e^2 T_n^2)" ); }
    else { real xn = 1; for ( int i = 0; i < n; ++i ) xn *= x; t = T( n, 1 / x ) * xn; vc_same( real( num2 * ( t*t + r.et*r.et*xn*xn ) ), real( t*t * den2 ), "its square is T_n^2 / (T_n^2 + e^2)" ); }
}
VC_HARNESS( magnitude_type1_n1 ) { magnitude<1,1>(); }
VC_HARNESS( magnitude_type1_n2 ) { magnitude<1,2>(); }
VC_HARNESS( magnitude_type1_n3 ) { magnitude<1,3>(); }
VC_HARNESS( magnitude_type2_n1 ) { magnitude<2,1>(); }
VC_HARNESS( magnitude_type2_n2 ) { magnitude<2,2>(); }
VC_HARNESS( magnitude_type2_n3 ) { magnitude<2,3>(); }
VC_HARNESS( magnitude_type1_n4 ) { magnitude<1,4>(); }
VC_HARNESS( magnitude_type2_n4 ) { magnitude<2,4>(); }
VC_HARNESS( magnitude_type1_n5 ) { magnitude<1,5>(); }
VC_HARNESS( magnitude_type2_n5 ) { magnitude<2,5>(); }
VC_HARNESS( magnitude_type1_n6 ) { magnitude<1,6>(); }
VC_HARNESS( magnitude_type2_n6 ) { magnitude<2,6>(); }
VC_HARNESS( magnitude_type1_n7 ) { magnitude<1,7>(); }
VC_HARNESS( magnitude_type2_n7 ) { magnitude<2,7>(); }
VC_HARNESS( magnitude_type1_n8 ) { magnitude<1,8>(); }
VC_HARNESS( magnitude_type2_n8 ) { magnitude<2,8>(); }
