// Native meaning of the vc_* functions: concrete inputs, checks that throw.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <sstream>
#include <vector>
#include <random>
#include <type_traits>
#include <csignal>
#include <unistd.h>

namespace vcn {

struct skip {};
struct violated { std::string name; };

struct reg;
inline std::map<std::string, void(*)()> & table() { static std::map<std::string, void(*)()> t; return t; }
struct reg { reg( char const * n, void (*f)() ) { table()[n] = f; } };

struct ctx
{
    std::mt19937_64 rng{1};
    int style = 0;
    bool replay = false;
    std::vector<std::string> in;     // replay inputs
    size_t pos = 0;
    std::vector<std::string> log;
    double tol = 1e-6;
    unsigned char mem[65536];
    struct ev { int k, a, n; unsigned v; };
    std::vector<ev> evs;
    std::set<int> poll;              // registers the device changes by itself
    int polls = 0;
};
inline ctx & C() { static ctx c; return c; }

// one case takes microseconds: one that is not done by then does not end
inline void no_end( int )
{
    std::printf( "VIOLATED does not terminate\nINPUTS" );
    for ( auto & s : C().log ) std::printf( " %s", s.c_str() );
    std::printf( "\n" ); std::fflush( stdout );
    _exit( 1 );
}

inline std::string take() { ctx & c = C(); if ( c.pos >= c.in.size() ) throw skip{}; return c.in[c.pos++]; }

inline double rnd_real()
{
    ctx & c = C();
    auto u = [&]( double a, double b ) { return std::uniform_real_distribution<double>( a, b )( c.rng ); };
    auto i = [&]( int a, int b ) { return double( std::uniform_int_distribution<int>( a, b )( c.rng ) ); };
    switch ( c.style % 6 )
    {
        case 0: return i( -3, 3 );
        case 1: return i( -12, 12 );
        case 2: return i( -160, 160 ) / 8;
        case 3: return ( i(0,1) ? 1 : -1 ) * std::exp( u( -5, 5 ) );
        case 4: return i( 1, 9 ) / 4;
        default: return i( 0, 3 ) == 0 ? i( -2, 2 ) : u( -1, 1 );
    }
}

inline long long rnd_int( int bits )
{
    ctx & c = C();
    unsigned long long r = c.rng();
    long long lim = bits == 64 ? INT64_MAX : ( 1LL << ( bits - 1 ) ) - 1;
    switch ( c.style % 6 )
    {
        case 0: return (long long)( r % 7 ) - 3;
        case 1: return (long long)( r % 41 ) - 20;
        case 2: { int s = int( c.rng() % ( bits ) ); long long v = (long long)( r >> ( 63 - s ) ); if ( v > lim ) v = lim; return ( c.rng() & 1 ) ? v : -v; }
        case 3: { long long e[] = { 0, 1, -1, lim, -lim - 1, lim - 1, -lim, 2, -2, lim / 2 }; return e[ r % 10 ]; }
        case 4: return (long long)( r % 10 );
        default: { int sh = 64 - bits; return (long long)( r << sh ) >> sh; }
    }
}

template< typename T > inline std::string str( T v )
{
    char b[64];
    if constexpr ( std::is_floating_point_v<T> ) std::snprintf( b, sizeof b, "%.17g", double( v ) );
    else std::snprintf( b, sizeof b, "%lld", (long long) v );
    return b;
}

template< typename T > inline T logd( T v ) { C().log.push_back( str( v ) ); return v; }

template< typename T > inline T draw()
{
    if ( C().replay )
    {
        auto s = take();
        if constexpr ( std::is_floating_point_v<T> ) return logd( T( std::strtod( s.c_str(), nullptr ) ) );
        else return logd( T( std::strtoll( s.c_str(), nullptr, 10 ) ) );
    }
    if constexpr ( std::is_floating_point_v<T> ) return logd( T( rnd_real() ) );
    else return logd( T( rnd_int( 8 * sizeof(T) ) ) );
}

template< typename T > inline T in( T lo, T hi )
{
    ctx & c = C();
    T v;
    if ( c.replay ) v = draw<T>();
    else if constexpr ( std::is_floating_point_v<T> )
    {
        double u = std::uniform_real_distribution<double>( 0, 1 )( c.rng );
        switch ( c.rng() % 8 ) { case 0: u = 0; break; case 1: u = 1; break; case 2: u = u*u*u; break; default: break; }
        v = logd( T( lo + u * ( hi - lo ) ) );
    }
    else
    {
        using U = unsigned long long;
        U span = U( (long long) hi ) - U( (long long) lo ) + 1;
        v = logd( T( (long long)( U( (long long) lo ) + ( span ? c.rng() % span : c.rng() ) ) ) );
    }
    if ( !( lo <= v && v <= hi ) ) throw skip{};
    return v;
}

inline std::ostringstream & text( int i ) { static std::map<int,std::ostringstream> t; return t[i]; }

inline void check( bool ok, char const * name ) { if ( !ok ) throw violated{ name }; }

template< typename T > inline void close( T a, T b, char const * name, T tol )
{
    if ( std::isnan( a ) || std::isnan( b ) || std::isinf( a ) || std::isinf( b ) )
    {
        if ( std::isnan( a ) == std::isnan( b ) && ( std::isnan( a ) || a == b ) ) return;
        throw skip{};                   // outside the real-arithmetic reading of the contract
    }
    if ( std::fabs( a - b ) > tol * ( 1 + std::fabs( a ) + std::fabs( b ) ) )
    {
        std::printf( "  %s: got %.17g, specified %.17g\n", name, double(a), double(b) );
        throw violated{ name };
    }
}

inline void closeq( __float128 a, __float128 b, char const * name )
{
    auto m = []( __float128 x ) { return x < 0 ? -x : x; };
    if ( a != a || b != b || m( a ) > 1e300 || m( b ) > 1e300 ) throw skip{};
    if ( m( a - b ) > __float128( 1e-9 ) * ( 1 + m( a ) + m( b ) ) )
    {
        std::printf( "  %s: got %.17g, specified %.17g\n", name, double(a), double(b) );
        throw violated{ name };
    }
}

} // namespace vcn

extern "C" {
inline int8_t  vc_any_i8()  { return vcn::draw<int8_t>(); }
inline int16_t vc_any_i16() { return vcn::draw<int16_t>(); }
inline int32_t vc_any_i32() { return vcn::draw<int32_t>(); }
inline int64_t vc_any_i64() { return vcn::draw<int64_t>(); }
inline bool    vc_any_bool() { return vcn::C().replay ? vcn::draw<int8_t>() != 0 : vcn::logd( int8_t( vcn::C().rng() & 1 ) ) != 0; }
inline double  vc_any_double() { return vcn::draw<double>(); }
inline float   vc_any_float() { return vcn::draw<float>(); }
inline int32_t vc_choose( int32_t n ) { return vcn::C().replay ? vcn::draw<int32_t>() : vcn::logd( int32_t( vcn::C().rng() % unsigned(n) ) ); }
inline void    vc_assume( bool c ) { if ( !c ) throw vcn::skip{}; }
inline void    vc_requires( bool c, char const * ) { if ( !c ) throw vcn::skip{}; }
inline void    vc_ensures( bool c, char const * n ) { (void) c; (void) n; }
inline void    vc_assert( bool c, char const * n ) { vcn::check( c, n ); }
inline void    vc_eq_d( double a, double b, char const * n ) { vcn::close( a, b, n, 1e-6 ); }
inline void    vc_eq_f( float a, float b, char const * n ) { vcn::close( a, b, n, 1e-3f ); }
inline void    vc_eq_i( int64_t a, int64_t b, char const * n )
{
    if ( a != b ) { std::printf( "  %s: got %lld, specified %lld\n", n, (long long)a, (long long)b ); throw vcn::violated{ n }; }
}
inline void    vc_cover( char const * ) {}
inline void    vc_havoc( void *, size_t ) { throw vcn::skip{}; }
inline void    vc_generalize( void *, size_t ) {}
inline bool    vc_is_native() { return true; }
inline int32_t vc_loop_visit() { return 0; }
inline void    vc_loop_hint( int64_t ) {}
inline void    vc_loop_cut() {}
inline void    vc_loop_settle() {}
inline void    vc_loop_back() {}
#ifdef VC_MCU
// device accesses, redirected here (check.py: device_calls)
__attribute__((used)) uint32_t vcn_load( void * p, int n )
{
    uintptr_t a = reinterpret_cast<uintptr_t>( p );
    uint32_t v = 0;
    if ( a >= 0x1000 ) { std::memcpy( &v, p, n ); return v; }
    auto & c = vcn::C();
    if ( c.poll.count( int( a ) ) )
    {
        if ( ++c.polls > 200 ) throw vcn::skip{};
        static int8_t const like[] = { 0x08, 0x18, 0x28, int8_t( 0x80 ), 0x20, 0x30 };
        auto s = c.replay || c.rng() % 4 == 0 ? vcn::draw<int8_t>() : vcn::logd( like[c.rng() % 6] );
        uint32_t r = static_cast<uint8_t>( s );
        if ( !c.evs.empty() && c.evs.back().k == 1 && c.evs.back().a == int( a ) ) c.evs.back().v = r; else c.evs.push_back( { 1, int( a ), 1, r } );
        return r;
    }
    for ( int i = 0; i < n; ++i ) v |= uint32_t( c.mem[a + i] ) << 8*i;
    c.evs.push_back( { 1, int( a ), n, v } );
    return v;
}
__attribute__((used)) void vcn_store( void * p, int n, uint32_t v )
{
    uintptr_t a = reinterpret_cast<uintptr_t>( p );
    if ( a >= 0x1000 ) { std::memcpy( p, &v, n ); return; }
    auto & c = vcn::C();
    for ( int i = 0; i < n; ++i ) c.mem[a + i] = ( v >> 8*i ) & 0xff;
    c.evs.push_back( { 2, int( a ), n, v } );
}
__attribute__((used)) uint8_t  vcn_load_i8( void * p )  { return vcn_load( p, 1 ); }
__attribute__((used)) uint16_t vcn_load_i16( void * p ) { return vcn_load( p, 2 ); }
__attribute__((used)) uint32_t vcn_load_i32( void * p ) { return vcn_load( p, 4 ); }
__attribute__((used)) void vcn_store_i8( void * p, uint8_t v )   { vcn_store( p, 1, v ); }
__attribute__((used)) void vcn_store_i16( void * p, uint16_t v ) { vcn_store( p, 2, v ); }
__attribute__((used)) void vcn_store_i32( void * p, uint32_t v ) { vcn_store( p, 4, v ); }
__attribute__((used)) void vcn_cli() { vcn::C().evs.push_back( { 3, 0xffff, 0, 0 } ); }
__attribute__((used)) void vcn_sei() { vcn::C().evs.push_back( { 4, 0xffff, 0, 0 } ); }
#endif
inline void    vc_mmio_poll( int32_t a ) { vcn::C().poll.insert( a ); }
inline int32_t vc_ev_count() { return int32_t( vcn::C().evs.size() ); }
inline int32_t vc_ev_kind( int32_t i ) { return size_t(i) < vcn::C().evs.size() ? vcn::C().evs[i].k : 0xffff; }
inline int32_t vc_ev_addr( int32_t i ) { return size_t(i) < vcn::C().evs.size() ? vcn::C().evs[i].a : 0xffff; }
inline int32_t vc_ev_size( int32_t i ) { return size_t(i) < vcn::C().evs.size() ? vcn::C().evs[i].n : 0xffff; }
inline int32_t vc_ev_val( int32_t i ) { return size_t(i) < vcn::C().evs.size() ? int32_t( vcn::C().evs[i].v ) : 0xffff; }
inline void    vc_text_same( int32_t i, int32_t j, char const * n )
{
    auto a = vcn::text( i ).str(), b = vcn::text( j ).str();
    if ( a != b ) { std::printf( "  %s: printed\n%s\n  specified\n%s\n", n, a.c_str(), b.c_str() ); throw vcn::violated{ n }; }
}
inline void    vc_ev_clear() { vcn::C().evs.clear(); }
inline void    vc_mmio_set( int32_t a, int32_t v ) { vcn::C().mem[a] = (unsigned char) v; }
inline int32_t vc_mmio_get( int32_t a ) { return vcn::C().mem[a]; }
}

int main( int argc, char ** argv )
{
    using namespace vcn;
    setvbuf( stdout, nullptr, _IOLBF, 0 );
    std::string cmd = argc > 1 ? argv[1] : "";
    if ( cmd == "list" ) { for ( auto & e : table() ) std::printf( "%s\n", e.first.c_str() ); return 0; }
    if ( cmd == "replay" && argc > 3 )
    {
        auto it = table().find( argv[2] );
        if ( it == table().end() ) { std::printf( "no such harness\n" ); return 2; }
        C().replay = true; std::signal( SIGALRM, no_end ); alarm( 15 );
        for ( int i = 3; i < argc; ++i ) C().in.push_back( argv[i] );
        if ( C().in.size() == 1 && C().in[0] == "-" ) C().in.clear();
        try
        {
            it->second();
            if ( C().pos && C().pos < C().in.size() )       // a history of two, for code that keeps something between calls
            {
                C().evs.clear(); C().poll.clear(); C().polls = 0; text( 0 ).str( "" ); text( 1 ).str( "" );
                it->second();
            }
        }
        catch ( skip ) { std::printf( "SKIPPED\n" ); return 3; }
        catch ( violated & v ) { std::printf( "VIOLATED %s\n", v.name.c_str() ); return 1; }
        std::printf( "HELD\n" );
        return 0;
    }
    if ( cmd == "random" && argc > 4 )
    {
        auto it = table().find( argv[2] );
        if ( it == table().end() ) { std::printf( "no such harness\n" ); return 2; }
        std::signal( SIGALRM, no_end );
        long seed = std::atol( argv[3] ), n = std::atol( argv[4] ); long ran = 0;
        for ( long k = 0; k < n; ++k )
        {
            C().rng.seed( (unsigned long long)( seed ) * 1000003ULL + k );
            C().style = int( k ); C().log.clear(); C().pos = 0; C().evs.clear(); C().poll.clear(); C().polls = 0; text( 0 ).str( "" ); text( 1 ).str( "" );
            std::memset( C().mem, 0, sizeof C().mem );
            if ( k % 64 == 0 || n < 64 ) std::printf( "@%ld\n", k );
            alarm( 15 );
            try { it->second(); ++ran; } catch ( skip ) { continue; }
            catch ( violated & v )
            {
                std::printf( "VIOLATED %s\nINPUTS", v.name.c_str() );
                for ( auto & s : C().log ) std::printf( " %s", s.c_str() );
                std::printf( "\n" );
                return 1;
            }
        }
        std::printf( "HELD %ld of %ld\n", ran, n );
        return 0;
    }
    return 2;
}
