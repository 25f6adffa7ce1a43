#ifndef BIQUAD_COMMON_HPP
#define BIQUAD_COMMON_HPP
#include "vc.hpp"
#include "dsp/biquad.hpp"
#include <complex>
using dsp::BiQuadT;
using Bq  = BiQuadT<real>;
using Cx  = std::complex<real>;

struct coeffs { real b0, b1, b2, a1, a2; };
inline coeffs any_coeffs() { return { vc_any<real>(), vc_any<real>(), vc_any<real>(), vc_any<real>(), vc_any<real>() }; }
template< typename Q > Q make( coeffs c ) { using S = typename Q::coeff_type; return Q( typename Q::B{ S(c.b0), S(c.b1), S(c.b2) }, typename Q::A{ S(c.a1), S(c.a2) } ); }
template< typename Q > void has( Q const & q, coeffs c, char const * name )
{
    vc_same( real( q.coeff_b().b0 ), c.b0, name ); vc_same( real( q.coeff_b().b1 ), c.b1, name ); vc_same( real( q.coeff_b().b2 ), c.b2, name );
    vc_same( real( q.coeff_a().a1 ), c.a1, name ); vc_same( real( q.coeff_a().a2 ), c.a2, name );
}
template< typename Q > void in_state( Q const & q, real v1, real v2, char const * name )
{
    vc_same( real( q.state().v1 ), v1, name ); vc_same( real( q.state().v2 ), v2, name );
}
inline void same( Cx a, Cx b, char const * name ) { vc_same( a.real(), b.real(), name ); vc_same( a.imag(), b.imag(), name ); }
#endif
