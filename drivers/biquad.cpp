// B01 difference equation, B02 state and identity, B03 poles and zeros, B04 stability, B05 frequency response
//@ .*_mixed|.*_float: narrow=1
//@ .*: native=20000 budget=120
#include "biquad_common.hpp"

// ---- B01 every realisation form computes the difference equation, from any state on
struct plain   { template< typename Q, typename X > static auto step( Q & q, X x ) { return q.step( x ); } };
struct df2     { template< typename Q, typename X > static auto step( Q & q, X x ) { return q.step_df2( x ); } };
struct df2t    { template< typename Q, typename X > static auto step( Q & q, X x ) { return q.step_df2_transposed( x ); } };

template< typename Form, typename Q > void difference()
{
    coeffs c = any_coeffs(); Q q = make<Q>( c );
    vc_cover("any coefficients");
    real x0 = vc_any<real>(), x1 = vc_any<real>(), x2 = vc_any<real>();
    real y0 = Form::step( q, x0 ), y1 = Form::step( q, x1 ), y2 = Form::step( q, x2 );
    vc_same( y0, real( c.b0*x0 ), "first output after construction" );
    vc_same( y1, real( c.b0*x1 + c.b1*x0 - c.a1*y0 ), "second output after construction" );
    vc_same( y2, real( c.b0*x2 + c.b1*x1 + c.b2*x0 - c.a1*y1 - c.a2*y0 ), "third output after construction" );
    // any later moment
    vc_generalize( &q, sizeof q );
    y0 = Form::step( q, x0 = vc_any<real>() ); y1 = Form::step( q, x1 = vc_any<real>() ); y2 = Form::step( q, x2 = vc_any<real>() );
    vc_same( y2, real( c.b0*x2 + c.b1*x1 + c.b2*x0 - c.a1*y1 - c.a2*y0 ), "any later output: y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2]" );
    has( q, c, "steps leave the coefficients alone" );
    // after reset the past no longer counts
    q.reset();
    y0 = Form::step( q, x0 ); y1 = Form::step( q, x1 ); y2 = Form::step( q, x2 );
    vc_same( y0, real( c.b0*x0 ), "first output after reset" );
    vc_same( y1, real( c.b0*x1 + c.b1*x0 - c.a1*y0 ), "second output after reset" );
    vc_same( y2, real( c.b0*x2 + c.b1*x1 + c.b2*x0 - c.a1*y1 - c.a2*y0 ), "third output after reset" );
}
VC_HARNESS( difference_step ) { difference<plain,Bq>(); }
VC_HARNESS( difference_df2 ) { difference<df2,Bq>(); }
VC_HARNESS( difference_df2t ) { difference<df2t,Bq>(); }
VC_HARNESS( difference_step_mixed ) { difference<plain,BiQuadT<real,realf>>(); }
VC_HARNESS( difference_df2t_mixed ) { difference<df2t,BiQuadT<real,realf>>(); }
VC_HARNESS( difference_df2_mixed ) { difference<df2,BiQuadT<real,realf>>(); }
VC_HARNESS( difference_step_float ) { difference<plain,BiQuadT<realf>>(); }
VC_HARNESS( difference_df2_float ) { difference<df2,BiQuadT<realf>>(); }
VC_HARNESS( difference_df2t_float ) { difference<df2t,BiQuadT<realf>>(); }

VC_HARNESS( forms_agree )
{
    coeffs c = any_coeffs(); Bq p = make<Bq>( c ), q = p, r = p;
    vc_cover("any coefficients");
    for ( int n = 0; n < 5; ++n )
    {
        real x = vc_any<real>(), y = p.step( x );
        vc_same( real( q.step_df2( x ) ), y, "step_df2 = step" ); vc_same( real( r.step_df2_transposed( x ) ), y, "step_df2_transposed = step" );
    }
}
VC_HARNESS( linear )
{
    coeffs c = any_coeffs(); Bq p = make<Bq>( c ), q = p, r = p; real k = vc_any<real>();
    vc_cover("any coefficients");
    for ( int n = 0; n < 4; ++n )
    {
        real x = vc_any<real>(), z = vc_any<real>(), y = p.step( x ), w = q.step( z );
        vc_same( real( r.step( x + k*z ) ), real( y + k*w ), "filtering a combination is the combination of the filtered" );
    }
}

// ---- B02
template< typename Q > void identity_frame()
{
    coeffs c = any_coeffs(), d = any_coeffs(), zero{ 0, 0, 0, 0, 0 };
    vc_cover("any coefficients");
    Q e; has( e, zero, "default: all coefficients 0" ); in_state( e, 0, 0, "default: state 0" );
    vc_same( real( e.step( vc_any<real>() ) ), real( 0 ), "default: no output" );
    using S = typename Q::coeff_type; Q f( typename Q::B{ S(c.b0), S(c.b1), S(c.b2) } ); has( f, { c.b0, c.b1, c.b2, 0, 0 }, "b-coefficients only" ); in_state( f, 0, 0, "initial state 0" );
    Q p = make<Q>( c ), q = make<Q>( d );
    has( p, c, "coefficients as given" ); in_state( p, 0, 0, "initial state 0" );
    for ( int n = 0; n < 2; ++n ) { p.step( vc_any<real>() ); q.step_df2_transposed( vc_any<real>() ); }
    vc_generalize( &p, sizeof p ); vc_generalize( &q, sizeof q );
    real p1 = p.state().v1, p2 = p.state().v2, q1 = q.state().v1, q2 = q.state().v2;
    has( p, c, "coefficients stay" ); in_state( p, p1, p2, "looking changes nothing" );
    Q pc = p; has( pc, c, "copy" ); in_state( pc, p1, p2, "copy" );
    pc.step( vc_any<real>() ); in_state( p, p1, p2, "a copy is independent" ); has( p, c, "a copy is independent" );
    pc.reset(); in_state( pc, 0, 0, "reset() clears the state" ); has( pc, c, "reset() keeps the coefficients" ); in_state( p, p1, p2, "a copy is independent" );
    p.swap( q );
    has( p, d, "swap exchanges coefficients" ); has( q, c, "swap exchanges coefficients" );
    in_state( p, q1, q2, "swap exchanges states" ); in_state( q, p1, p2, "swap exchanges states" );
    p.swap( p ); has( p, d, "swap with itself" ); in_state( p, q1, q2, "swap with itself" );
    p = q; has( p, c, "assignment" ); in_state( p, p1, p2, "assignment" ); has( q, c, "assignment" ); in_state( q, p1, p2, "assignment" );
    // state() is the whole of the memory: equal coefficients and states give equal futures
    real x = vc_any<real>(); int form = vc_choose( 3 );
    Q r = make<Q>( c ); q.reset(); r.reset();
    real y = form == 0 ? q.step( x ) : form == 1 ? q.step_df2( x ) : q.step_df2_transposed( x );
    real z = form == 0 ? r.step( x ) : form == 1 ? r.step_df2( x ) : r.step_df2_transposed( x );
    vc_same( y, z, "after reset() like new" ); in_state( q, r.state().v1, r.state().v2, "after reset() like new" );
}
VC_HARNESS( identity ) { identity_frame<Bq>(); }
VC_HARNESS( identity_mixed ) { identity_frame<BiQuadT<real,realf>>(); }
VC_HARNESS( identity_float ) { identity_frame<BiQuadT<realf>>(); }

// ---- B03
VC_HARNESS( solve )
{
    real a = vc_any<real>(), b = vc_any<real>(), c = vc_any<real>();
    vc_nonzero( a ); vc_cover("a quadratic");
    auto s = dsp::solve( a, b, c );
    same( s.s0 + s.s1, Cx( -b/a, 0 ), "sum of the solutions = -b/a" );
    same( s.s0 * s.s1, Cx( c/a, 0 ), "product of the solutions = c/a" );
}
VC_HARNESS( poles_zeros )
{
    coeffs c = any_coeffs(); Bq q = make<Bq>( c );
    vc_nonzero( c.b0 ); vc_cover("any biquad");
    auto p = q.poles(); auto z = q.zeros();
    same( p.s0 + p.s1, Cx( -c.a1, 0 ), "poles solve z^2 + a1 z + a2" ); same( p.s0 * p.s1, Cx( c.a2, 0 ), "poles solve z^2 + a1 z + a2" );
    same( z.s0 + z.s1, Cx( -c.b1/c.b0, 0 ), "zeros solve b0 z^2 + b1 z + b2" ); same( z.s0 * z.s1, Cx( c.b2/c.b0, 0 ), "zeros solve b0 z^2 + b1 z + b2" );
    has( q, c, "looking changes nothing" ); in_state( q, 0, 0, "looking changes nothing" );
}
// two real solutions or a conjugate pair
Bq::Solution any_solution( bool conjugate )
{
    real x = vc_any<real>(), y = vc_any<real>();
    if ( conjugate ) { vc_nonzero( y ); return { Cx( x, y ), Cx( x, -y ) }; }
    return { Cx( x, 0 ), Cx( y, 0 ) };
}
VC_HARNESS( from_zpk )
{
    auto z = any_solution( vc_choose( 2 ) ), p = any_solution( vc_choose( 2 ) ); real k = vc_any<real>();
    vc_cover("any zeros, poles, gain");
    Bq q( z, p, k );
    auto zs = z.s0 + z.s1, zp = z.s0 * z.s1, ps = p.s0 + p.s1, pp = p.s0 * p.s1;
    has( q, { k, real( -k*zs.real() ), real( k*zp.real() ), real( -ps.real() ), pp.real() }, "k(x - z1)(x - z2) / (x - p1)(x - p2)" );
    in_state( q, 0, 0, "initial state 0" );
}
VC_HARNESS( zpk_trip )
{
    coeffs c = any_coeffs(); Bq q = make<Bq>( c );
    vc_nonzero( c.b0 ); vc_cover("any biquad");
    Bq r( q.zeros(), q.poles(), c.b0 );
    has( r, c, "a biquad remade from its zeros, poles and gain has its coefficients" );
}

// ---- B04
VC_HARNESS( stable )
{
    coeffs c = any_coeffs(); Bq q = make<Bq>( c );
    if ( vc_is_native() ) vc_assume( std::fabs( double( c.a1*c.a1 - 4*c.a2 ) ) > 1e-3 && std::fabs( std::fabs( double( c.a2 ) ) - 1 ) > 1e-3 && std::fabs( std::fabs( double( c.a1 ) ) - 1 - double( c.a2 ) ) > 1e-3 );
    vc_cover("any biquad");
    bool s = q.is_stable();
    bool jury = ( c.a2 <= 1 ) & ( c.a1 <= 1 + c.a2 ) & ( -c.a1 <= 1 + c.a2 );
    vc_same( s, jury, "stable iff both poles are within the unit circle" );
    has( q, c, "looking changes nothing" );
}

// ---- B05
VC_HARNESS( response )
{
    coeffs c = any_coeffs(); Bq q = make<Bq>( c ); real f = vc_any<real>();
    real const C = std::cos( 2 * vc_pi<real> * f ), S = std::sin( 2 * vc_pi<real> * f );     // z = C + jS
    Cx const zi( C, -S );
    Cx num = c.b0 + zi*( c.b1 + zi*c.b2 ), den = real( 1 ) + zi*( c.a1 + zi*c.a2 );
    real d2 = den.real()*den.real() + den.imag()*den.imag();
    vc_nonzero( d2 );
    vc_cover("any biquad and frequency");
    auto h = response( q, f );
    same( h * den, num, "H (1 + a1/z + a2/z^2) = b0 + b1/z + b2/z^2 at z = exp(2 pi j f)" );
}
// complex signals
template< typename Form > void complex_signal()
{
    coeffs c = any_coeffs(); BiQuadT<Cx,real> q{ { c.b0, c.b1, c.b2 }, { c.a1, c.a2 } };
    vc_cover("any biquad");
    Cx x0( vc_any<real>(), vc_any<real>() ), x1( vc_any<real>(), vc_any<real>() ), x2( vc_any<real>(), vc_any<real>() );
    Cx y0 = Form::step( q, x0 ), y1 = Form::step( q, x1 ), y2 = Form::step( q, x2 );
    same( y0, c.b0*x0, "complex signal" ); same( y1, c.b0*x1 + c.b1*x0 - c.a1*y0, "complex signal" );
    same( y2, c.b0*x2 + c.b1*x1 + c.b2*x0 - c.a1*y1 - c.a2*y0, "complex signal" );
}
VC_HARNESS( complex_signal_step ) { complex_signal<plain>(); }
VC_HARNESS( complex_signal_df2 ) { complex_signal<df2>(); }
VC_HARNESS( complex_signal_df2t ) { complex_signal<df2t>(); }
