// X01 what printing an object shows
//@ .*: native=3000 budget=100
//@ fixed: fp=1
#include "num/matrix-io.hpp"
#include "num/fixed-point-io.hpp"
#include "core/core-io.hpp"
#include "dsp/biquad-io.hpp"
#include "dsp/biquad-cascade-io.hpp"
#include "dsp/onepole-io.hpp"
#include "dsp/filter.hpp"
#include "dsp/chebyshev-design-io.hpp"
#include "dsp/kalman.hpp"
#include "dsp/kalman-io.hpp"
#include "biquad_common.hpp"
#ifdef VC_NATIVE
std::ostream & vc_out( int32_t i ) { return vcn::text( i ); }
#else
extern "C" std::ostream & vc_out( int32_t i );
#endif
#define OUT vc_out( 0 )
#define SPEC vc_out( 1 )
using std::ostream;

template< typename M > M any_matrix() { M m( 0 ); for ( auto & e : m ) e = vc_any<typename M::value_type>(); return m; }
template< typename T, int N, int M > void print_matrix()
{
    auto m = any_matrix< num::matrix<T,N,M> >(); auto const before = m;
    OUT << m;
    for ( int i = 0; i < N; ++i ) { for ( int j = 0; j < M; ++j ) SPEC << " " << before( i, j ); SPEC << "\n"; }
    for ( int i = 0; i < N*M; ++i ) vc_same( m[i], before[i], "printing changes nothing" );
}
#define X( n, N, M ) VC_HARNESS( matrix_##n ) { vc_cover( "any elements" ); print_matrix<double,N,M>(); print_matrix<int32_t,N,M>(); vc_text_same( 0, 1, "each row on a line of its own, each element after a blank" ); }
X( 1x1, 1, 1 ) X( 1x3, 1, 3 ) X( 3x1, 3, 1 ) X( 2x2, 2, 2 ) X( 2x4, 2, 4 ) X( 4x3, 4, 3 )
#undef X
VC_HARNESS( matrix_kalman )
{
    using K = num::kalman<double,2,1,1>;
    auto A = any_matrix<K::A_t>(); auto B = any_matrix<K::B_t>(); auto H = any_matrix<K::H_t>(); auto Q = any_matrix<K::Q_t>(); auto R = any_matrix<K::R_t>(); auto P = any_matrix<K::P_t>(); auto x = any_matrix<K::x_t>();
    K k( vc_any<double>(), A, B, H, Q, R, P, x ); vc_cover( "any estimator" );
    OUT << k.system_state() << k.estimation_error_covariance() << k.kalman_gain();
    SPEC << " " << x( 0 ) << "\n " << x( 1 ) << "\n " << P( 0, 0 ) << " " << P( 0, 1 ) << "\n " << P( 1, 0 ) << " " << P( 1, 1 ) << "\n " << double( 0 ) << "\n " << double( 0 ) << "\n";
    vc_text_same( 0, 1, "state, covariance and gain as matrices" );
}
template< typename T > void print_vector()
{
    for ( int n = 0; n <= 5; ++n )
    {
        std::vector<T> v; SPEC << "[";
        for ( int i = 0; i < n; ++i ) { v.push_back( vc_any<T>() ); SPEC << " " << v[i]; }
        SPEC << "]"; OUT << v;
    }
}
VC_HARNESS( vector ) { vc_cover( "any elements" ); print_vector<double>(); print_vector<int32_t>(); vc_text_same( 0, 1, "all elements in brackets, each after a blank" ); }
template< typename Q > void print_fixed()
{
    Q const q = num::from_rep<Q>()( vc_any<typename Q::rep>() );
    OUT << q << " "; SPEC << double( q.underlying_value() ) / double( int64_t(1) << Q::fractional_digits ) << " ";
}
VC_HARNESS( fixed )
{
    vc_cover( "any value" ); print_fixed< num::fixed_point<int8_t,3> >(); print_fixed< num::fixed_point<int16_t,8> >(); print_fixed< num::fixed_point<int32_t,15> >(); print_fixed< num::fixed_point<int32_t,8,8> >();
    vc_text_same( 0, 1, "the number it stands for" );
}

void spec( Cx z ) { SPEC << "(" << z.real() << "," << z.imag() << ")"; }
void spec( Bq const & q )
{
    auto a = q.coeff_a(); auto b = q.coeff_b(); auto w = q.state(); auto p = q.poles(), z = q.zeros();
    SPEC << "\nBiQuad is " << ( q.is_stable() ? "stable:" : "NOT stable:" ) << "\na: [A " << a.a1 << ", " << a.a2 << " ]\nb: [B " << b.b0 << ", " << b.b1 << ", " << b.b2 << " ]\nw: [W " << w.v1 << ", " << w.v2 << " ]\np: [S ";
    spec( p.s0 ); SPEC << ", "; spec( p.s1 ); SPEC << " ]\nz: [S "; spec( z.s0 ); SPEC << ", "; spec( z.s1 ); SPEC << " ]\n";
}
Bq any_biquad() { Bq q = make<Bq>( any_coeffs() ); vc_assume( q.coeff_b().b0 != 0 ); q.step( vc_any<real>() ); q.step( vc_any<real>() ); vc_generalize( &q, sizeof q ); return q; }
VC_HARNESS( biquad_parts )
{
    vc_cover( "any values" );
    real x[5]; for ( auto & e : x ) e = vc_any<real>();
    dsp::biquad::BAT<real> c; c.b0 = x[0]; c.b1 = x[1]; c.b2 = x[2]; c.a1 = x[3]; c.a2 = x[4];
    OUT << c; SPEC << "[B " << x[0] << ", " << x[1] << ", " << x[2] << " ][A " << x[3] << ", " << x[4] << " ]"; vc_text_same( 0, 1, "all coefficients" );
    dsp::biquad::SolutionT<real> s{ { x[0], x[1] }, { x[2], x[3] } }; OUT << s; SPEC << "[S "; spec( Cx( x[0], x[1] ) ); SPEC << ", "; spec( Cx( x[2], x[3] ) ); SPEC << " ]"; vc_text_same( 0, 1, "both roots" );
}
VC_HARNESS( biquad )
{
    vc_cover( "any filter" ); Bq q = any_biquad();
    auto a = q.coeff_a(); auto b = q.coeff_b(); auto w = q.state();
    OUT << q; spec( q ); vc_text_same( 0, 1, "stability, coefficients, state, poles and zeros" );
    has( q, { b.b0, b.b1, b.b2, a.a1, a.a2 }, "printing changes nothing" ); in_state( q, w.v1, w.v2, "printing changes nothing" );
}
template< int N > void print_cascade()
{
    dsp::BiQuadCascadeT<real,N> c;
    for ( int n = 0; n <= N; ++n )
    {
        if ( n > 0 ) c.append( any_biquad() );
        if ( vc_choose( 2 ) ) break;
    }
    int n = c.size(); bool st = true; for ( int i = 0; i < n; ++i ) if ( !( c.begin() + i )->is_stable() ) st = false;
    OUT << c;
    SPEC << "\nFilter cascade occupies " << sizeof c << " bytes in memory.\nfilters: " << n << " entries out of " << N << ", " << ( st ? "stable:" : "NOT stable:" ) << "\n";
    for ( auto const & q : c ) spec( q );
    vc_text_same( 0, 1, "size, capacity, stability and every section" );
}
VC_HARNESS( cascade ) { vc_cover( "any cascade" ); print_cascade<2>(); }
VC_HARNESS( onepole )
{
    using O = dsp::OnePoleT<real>;
    real b0 = vc_any<real>(), a1 = vc_any<real>(); vc_assume( b0 != 0 ); vc_cover( "any filter" );
    O q( O::B{ b0 }, O::A{ a1 } ); q.step( vc_any<real>() ); q.step( vc_any<real>() );
    auto w = q.state(); auto p = q.poles(); auto z = q.zeros();
    OUT << q; SPEC << "\nOnePole is " << ( q.is_stable() ? "stable:" : "NOT stable:" ) << "\na: [A " << a1 << " ]\nb: [B " << b0 << " ]\nw: [W " << w.v1 << " ]\np: [S "; spec( p.s0 ); SPEC << " ]\nz: [S "; spec( z.s0 ); SPEC << " ]\n";
    vc_text_same( 0, 1, "coefficients, state, pole and zero" );
}
VC_HARNESS( chebyshev )
{
    vc_cover( "any data" );
    real x[7]; for ( auto & e : x ) e = vc_any<real>();
    int32_t n = vc_any<int32_t>();
    dsp::chebyshev_design::AlgoInfoT<real> i{ x[0], x[1], x[2], x[3], x[4], n, x[5], x[6] };
    OUT << i;
    SPEC << "[I Wpass:" << x[0] << " Wstop:" << x[1] << " epass:" << x[2] << " estop:" << x[3] << " Nex:" << x[4] << " N:" << n << " f3:" << x[5] << " a:" << x[6] << " ]";
    vc_text_same( 0, 1, "every design value after its name" );
}
