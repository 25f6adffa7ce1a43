// C01 a cascade is a sequence of sections, C02 a cascade filters like its sections one after the other
//@ .*: native=4000 budget=120
//@ sequence_n8: budget=300
#include "biquad_common.hpp"
#include "dsp/biquad-cascade.hpp"
using dsp::BiQuadCascadeT;

Bq any_section() { Bq q = make<Bq>( any_coeffs() ); for ( int n = 0; n < 2; ++n ) q.step( vc_any<real>() ); vc_generalize( &q, sizeof q ); return q; }
void same( Bq::A a, Bq::B b, Bq::W w, Bq const & q, char const * name )
{
    vc_same( a.a1, q.coeff_a().a1, name ); vc_same( a.a2, q.coeff_a().a2, name );
    vc_same( b.b0, q.coeff_b().b0, name ); vc_same( b.b1, q.coeff_b().b1, name ); vc_same( b.b2, q.coeff_b().b2, name );
    vc_same( w.v1, q.state().v1, name ); vc_same( w.v2, q.state().v2, name );
}
void same( Bq const & p, Bq const & q, char const * name ) { same( p.coeff_a(), p.coeff_b(), p.state(), q, name ); }

// the sections the cascade must have
template< int N > struct model
{
    Bq s[N]; int n = 0;
    void is( BiQuadCascadeT<real,N> const & c, char const * name ) const
    {
        vc_same( c.size(), n, name );
        for ( int i = 0; i < n; ++i ) same( c.coeff_a(i), c.coeff_b(i), c.state(i), s[i], name );
        int i = 0;
        for ( auto const & q : c ) { vc_assert( i < n, "iteration ends at size()" ); same( q, s[i++], name ); }
        vc_same( i, n, "iteration visits all sections" );
    }
};
// any cascade of n sections, as construction, appends and removals leave it
template< int N > void any_cascade( BiQuadCascadeT<real,N> & c, model<N> & m, int n )
{
    for ( int i = 0; i < N; ++i ) { Bq q = any_section(); c.append( q ); if ( i < n ) m.s[i] = q; }
    for ( int i = N; i > n; --i ) c.remove( i - 1 );
    m.n = n;
}
template< int N > void sequence()
{
    BiQuadCascadeT<real,N> c; model<N> m;
    vc_same( c.size(), 0, "empty after construction" ); m.is( c, "empty after construction" );
    int n = vc_choose( N + 1 );
    any_cascade( c, m, n );
    vc_cover( "any cascade" );
    vc_same( c.reserved(), N, "reserved() is the capacity" );
    m.is( c, "append() appends, remove() of the last drops it" );
    Bq q = any_section();
    BiQuadCascadeT<real,N> const before = c; model<N> const mb = m;
    switch ( vc_choose( 7 ) )
    {
    case 0: if ( n == N ) return;
        vc_cover( "room to append" ); c.append( q ); m.s[m.n++] = q; m.is( c, "append() appends, keeps the others" ); break;
    case 1: if ( n == 0 ) return;
        { int i = vc_choose( n ); vc_cover( "something to remove" ); c.remove( i ); for ( int k = i + 1; k < n; ++k ) m.s[k-1] = m.s[k]; --m.n; }
        m.is( c, "remove() drops section i, keeps the order of the others" ); break;
    case 2: if ( n == 0 || n == N ) return;
        { int i = vc_choose( n ); vc_cover( "room to insert" ); c.insert( i, q ); for ( int k = n; k > i; --k ) m.s[k] = m.s[k-1]; m.s[i] = q; ++m.n; }
        m.is( c, "insert() puts the section before section i, keeps the others in order" ); break;
    case 3: if ( n == 0 ) return;
        { int i = vc_choose( n ); vc_cover( "something to replace" ); Bq old = c.replace( i, q ); same( old, m.s[i], "replace() returns the previous section" ); m.s[i] = q; }
        m.is( c, "replace() changes section i only" ); break;
    case 4: c.clear(); m.n = 0; vc_cover( "clear" ); m.is( c, "clear() leaves an empty cascade" );
        c.append( q ); m.s[m.n++] = q; m.is( c, "usable after clear()" ); break;
    case 5: { int i = 0; for ( auto & s : c ) { s.step( 1 ); m.s[i++].step( 1 ); } }
        m.is( c, "iteration gives access to the sections themselves" ); break;
    case 6: { BiQuadCascadeT<real,N> d = c; if ( n > 0 ) d.remove( 0 ); else d.append( q ); m.is( c, "a copy is independent" ); }
        { BiQuadCascadeT<real,N> d( q ); d = c; m.is( d, "assignment" ); m.is( c, "assignment leaves its source" ); } break;
    }
    mb.is( before, "a copy is independent" );
}
VC_HARNESS( sequence_n1 ) { sequence<1>(); }
VC_HARNESS( sequence_n2 ) { sequence<2>(); }
VC_HARNESS( sequence_n3 ) { sequence<3>(); }
VC_HARNESS( sequence_n4 ) { sequence<4>(); }
VC_HARNESS( sequence_n5 ) { sequence<5>(); }
VC_HARNESS( sequence_n8 ) { sequence<8>(); }

VC_HARNESS( sequence_constructed )
{
    vc_cover( "any sections" );
    model<3> m; for ( auto & q : m.s ) q = any_section();
    BiQuadCascadeT<real,3> const a( m.s[0] ), b( m.s[0], m.s[1] ), c( m.s[0], m.s[1], m.s[2] );
    m.n = 1; m.is( a, "one section" ); m.n = 2; m.is( b, "two sections" ); m.n = 3; m.is( c, "full" );
}

// ---- C02
template< int N, typename Step, typename One > void composition( Step step, One one )
{
    BiQuadCascadeT<real,N> c; model<N> m; any_cascade( c, m, vc_choose( N + 1 ) );
    vc_cover( "any cascade" );
    for ( int t = 0; t < 2; ++t )
    {
        real x = vc_any<real>(), y = x;
        for ( int i = 0; i < m.n; ++i ) y = one( m.s[i], y );
        vc_same( step( c, x ), y, "the output of each section is the input of the next" );
        m.is( c, "every section steps once" );
        vc_generalize( &c, sizeof c );
        for ( int i = 0; i < m.n; ++i )     // forgotten alike
        {
            auto k = c.begin() + i; m.s[i] = *k;
        }
    }
    reset( c );
    for ( int i = 0; i < m.n; ++i ) m.s[i].reset();
    m.is( c, "reset() resets every section" );
}
VC_HARNESS( composition_step ) { composition<5>( []( auto & c, real x ) { return step( c, x ); }, []( Bq & q, real x ) { return q.step( x ); } ); }
VC_HARNESS( composition_df2 ) { composition<5>( []( auto & c, real x ) { return step_df2( c, x ); }, []( Bq & q, real x ) { return q.step_df2( x ); } ); }
VC_HARNESS( composition_df2t ) { composition<5>( []( auto & c, real x ) { return step_df2_transposed( c, x ); }, []( Bq & q, real x ) { return q.step_df2_transposed( x ); } ); }

VC_HARNESS( stable_iff_all )
{
    BiQuadCascadeT<real,5> c; model<5> m; int n = vc_choose( 6 );
    for ( int i = 0; i < n; ++i ) { Bq q = make<Bq>( any_coeffs() ); c.append( q ); m.s[m.n++] = q; }
    vc_cover( "any cascade" );
    bool all = true; for ( int i = 0; i < n; ++i ) all = all & m.s[i].is_stable();
    vc_same( is_stable( c ), all, "stable iff every section is" );
    m.is( c, "looking changes nothing" );
}
VC_HARNESS( response_product )
{
    BiQuadCascadeT<real,5> c; model<5> m; int n = vc_choose( 6 ); real f = vc_any<real>();
    for ( int i = 0; i < n; ++i ) { Bq q = make<Bq>( any_coeffs() ); c.append( q ); m.s[m.n++] = q; }
    vc_cover( "any cascade" );
    Cx h( 1, 0 ); for ( int i = 0; i < n; ++i ) h *= response( m.s[i], f );
    same( response( c, f ), h, "the response is the product of the responses" );
    m.is( c, "looking changes nothing" );
}
