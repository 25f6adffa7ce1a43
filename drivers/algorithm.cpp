// A01: std20::copy, fill, equal, swap - for ranges of every length.
// The algorithms are instantiated with abstract iterators.  Every loop of theirs asks "first != last" once per
// turn; that question is where the loop invariant lives.  Asked again at the same place, the invariant is proved
// and the ghost and iterator state is made arbitrary within it; asked once more, the invariant is proved again and
// the path ends (whatever else a turn changed is made arbitrary by the verifier, see loop cuts in irvc/sym.py).
//@ .*: native=6000 budget=60
#include "vc.hpp"
#include "std/algorithm.hpp"
#include "std/utility.hpp"

struct ghost
{
    int64_t n;          // length of the range
    int64_t done;       // elements dealt with so far, in order
    int64_t out;        // position of the output iterator
    int64_t cut;        // done, when the loop state was made arbitrary
    int64_t bad[2];     // native runs: where comparisons come out false
    int64_t calls;
    bool    mismatch;   // a comparison came out false
    bool    second;     // there is a second iterator in step with the first
};
static ghost g;

static void hints() { vc_loop_hint( g.done ); vc_loop_hint( g.n - g.done ); vc_loop_hint( g.mismatch ? 1 : 0 ); }

static bool head( int64_t & pos, int64_t end )      // first != last
{
    vc_assert( end == g.n, "end of the range is the one given" );
    vc_assert( pos >= 0 && pos <= g.n, "stays inside the range" );
    if ( vc_is_native() ) vc_assert( ++g.calls < 4 * g.n + 20, "terminates" );
    else
    {
        int turn = vc_loop_visit();
        if ( turn )
        {
            vc_assert( pos == g.done, "elements are dealt with in order, each once" );
            vc_assert( !g.second || g.out == g.done, "iterators stay in step" );
            hints();
        }
        if ( turn == 2 ) { vc_assert( g.done > g.cut, "makes progress" ); vc_loop_back(); }
        if ( turn == 1 )
        {
            int64_t k = vc_any<int64_t>();
            vc_assume( 0 <= k ); vc_assume( k <= g.n );
            g.cut = g.done = pos = k; if ( g.second ) g.out = k;
            vc_loop_cut();
            hints();
            vc_loop_settle();
        }
    }
    return pos != end;
}

static int64_t src( int64_t k ) { return k * 7 + 3; }       // element k of the source

struct in_it                                                  // input iterator: reads element pos of the source
{
    mutable int64_t pos;
    int64_t operator*() const { vc_assert( pos >= 0 && pos < g.n, "reads inside the range" ); return src( pos ); }
    in_it & operator++() { ++pos; return *this; }
    in_it operator++( int ) { in_it c = *this; ++pos; return c; }
    friend bool operator!=( in_it const & a, in_it const & b ) { return head( a.pos, b.pos ); }
    friend bool operator==( in_it const & a, in_it const & b ) { return !head( a.pos, b.pos ); }
};

struct slot
{
    int64_t at;
    void operator=( int64_t v ) const
    {
        vc_assert( at == g.done, "writes in order, each element once" );
        vc_assert( at >= 0 && at < g.n, "writes inside the range" );
        vc_assert( v == src( at ), "writes the corresponding element" );
        ++g.done;
    }
};
struct out_it                                                 // output iterator: its position is g.out
{
    int64_t at = -1;                                          // -1: follow g.out
    slot operator*() const { return slot{ at < 0 ? g.out : at }; }
    out_it & operator++() { ++g.out; return *this; }
    out_it operator++( int ) { out_it c; c.at = g.out; ++g.out; return c; }
};

static void begin_case( bool second )
{
    g.n = vc_is_native() ? vc_in<int64_t>( 0, vc_in<int64_t>( 0, 19 ) ? 20 : vc_in<int64_t>( 0, 4 ) ? 300 : 70000 ) : vc_in<int64_t>( 0, int64_t( 1 ) << 40 );
    g.done = 0; g.out = 0; g.cut = -1; g.calls = 0; g.mismatch = false; g.second = second;
    if ( vc_is_native() ) for ( int i = 0; i < 2; ++i ) g.bad[i] = vc_in<int64_t>( 0, 1 ) ? -1 : vc_in<int64_t>( 0, 1 ) ? vc_in<int64_t>( 0, g.n ) : g.n - 1 - vc_in<int64_t>( 0, g.n / 2 );
}

VC_HARNESS( copy )
{
    begin_case( true );
    out_it o;
    out_it r = std20::copy( in_it{ 0 }, in_it{ g.n }, o );
    vc_cover("copy returns");
    vc_assert( g.done == g.n, "every element is copied" );
    vc_assert( ( r.at < 0 ? g.out : r.at ) == g.n, "returns the end of what was written" );
}

struct fill_it                                                // forward iterator over the range to fill
{
    mutable int64_t pos;
    struct ref
    {
        int64_t at;
        void operator=( int32_t const & v ) const
        {
            vc_assert( at == g.done, "writes in order, each element once" );
            vc_assert( at >= 0 && at < g.n, "writes inside the range" );
            vc_assert( v == 12345, "writes the value" );
            ++g.done;
        }
    };
    ref operator*() const { return ref{ pos }; }
    fill_it & operator++() { ++pos; return *this; }
    fill_it operator++( int ) { fill_it c = *this; ++pos; return c; }
    friend bool operator!=( fill_it const & a, fill_it const & b ) { return head( a.pos, b.pos ); }
    friend bool operator==( fill_it const & a, fill_it const & b ) { return !head( a.pos, b.pos ); }
};

VC_HARNESS( fill )
{
    begin_case( false );
    std20::fill( fill_it{ 0 }, fill_it{ g.n }, int32_t( 12345 ) );
    vc_cover("fill returns");
    vc_assert( g.done == g.n, "every element is filled" );
}

// elements of equal(): only comparing corresponding elements is meaningful
struct elem { int64_t at; int which; };
static bool compare( elem a, elem b )
{
    vc_assert( a.which == 1 && b.which == 2, "compares an element of the first range with one of the second" );
    vc_assert( a.at == b.at, "compares corresponding elements" );
    vc_assert( a.at == g.done, "compares in order" );
    vc_assert( a.at >= 0 && a.at < g.n, "compares inside the range" );
    bool same = vc_is_native() ? a.at != g.bad[0] && a.at != g.bad[1] : vc_any_bool();
    ++g.done;
    if ( !same ) g.mismatch = true;
    return same;
}
static bool operator==( elem a, elem b ) { return compare( a, b ); }
static bool operator!=( elem a, elem b ) { return !compare( a, b ); }

struct eq1_it
{
    mutable int64_t pos;
    elem operator*() const { return elem{ pos, 1 }; }
    eq1_it & operator++() { ++pos; return *this; }
    eq1_it operator++( int ) { eq1_it c = *this; ++pos; return c; }
    friend bool operator!=( eq1_it const & a, eq1_it const & b ) { return head( a.pos, b.pos ); }
    friend bool operator==( eq1_it const & a, eq1_it const & b ) { return !head( a.pos, b.pos ); }
};
struct eq2_it
{
    int64_t at = -1;
    elem operator*() const { return elem{ at < 0 ? g.out : at, 2 }; }
    eq2_it & operator++() { ++g.out; return *this; }
    eq2_it operator++( int ) { eq2_it c; c.at = g.out; ++g.out; return c; }
};
struct pred { bool operator()( elem a, elem b ) const { return compare( a, b ); } };

static void verdict( bool r )
{
    if ( r ) { vc_cover("equal"); vc_assert( !g.mismatch && g.done == g.n, "true means every pair compared equal" ); }
    else     { vc_cover("different"); vc_assert( g.mismatch, "false means some pair compared unequal" ); }
}
VC_HARNESS( equal )           { begin_case( true ); verdict( std20::equal( eq1_it{ 0 }, eq1_it{ g.n }, eq2_it{} ) ); }
VC_HARNESS( equal_predicate ) { begin_case( true ); verdict( std20::equal( eq1_it{ 0 }, eq1_it{ g.n }, eq2_it{}, pred{} ) ); }

template< typename T > void swapped()
{
    T a = vc_any<T>(), b = vc_any<T>(), c = vc_any<T>(), x = a, y = b, z = c;
    vc_cover("any values");
    std20::swap( x, y );
    vc_same( x, b, "swap: first gets the second" ); vc_same( y, a, "swap: second gets the first" ); vc_same( z, c, "swap: nothing else changes" );
    std20::swap( z, z );
    vc_same( z, c, "swap with itself" );
}
struct big { int64_t a[3]; };
VC_HARNESS( swap_real ) { swapped<real>(); }
VC_HARNESS( swap_i8 )   { swapped<int8_t>(); }
VC_HARNESS( swap_i64 )  { swapped<int64_t>(); }
VC_HARNESS( swap_struct )
{
    big a, b; for ( int i = 0; i < 3; ++i ) { a.a[i] = vc_any<int64_t>(); b.a[i] = vc_any<int64_t>(); }
    big x = a, y = b;
    vc_cover("any values");
    std20::swap( x, y );
    for ( int i = 0; i < 3; ++i ) { vc_same( x.a[i], b.a[i], "swap: first gets the second" ); vc_same( y.a[i], a.a[i], "swap: second gets the first" ); }
}

// on plain arrays (the way the matrix library uses them): memory safety and result for a few lengths
template< int N > void arrays()
{
    real a[N+1], b[N+1]; real last = vc_any<real>();
    for ( int i = 0; i < N; ++i ) { a[i] = vc_any<real>(); b[i] = vc_any<real>(); }
    a[N] = last; b[N] = last;
    vc_cover("any contents");
    vc_assert( std20::copy( a, a + N, b ) == b + N, "copy returns the end of what was written" );
    for ( int i = 0; i < N; ++i ) vc_same( b[i], a[i], "copied" );
    vc_same( b[N], last, "nothing past the end is written" );
    vc_assert( std20::equal( a, a + N, b ), "copies are equal" );
    real v = vc_any<real>();
    std20::fill( b, b + N, v );
    for ( int i = 0; i < N; ++i ) vc_same( b[i], v, "filled" );
    vc_same( b[N], last, "nothing past the end is written" );
    bool all = true; for ( int i = 0; i < N; ++i ) all = all && a[i] == v;
    vc_assert( std20::equal( a, a + N, b ) == all, "equal iff every pair is equal" );
    // shifting down within one array
    real c[N+1]; for ( int i = 0; i < N; ++i ) c[i] = a[i];
    if ( N > 1 ) { std20::copy( c + 1, c + N, c ); for ( int i = 0; i + 1 < N; ++i ) vc_same( c[i], a[i+1], "copy down within an array" ); }
}
VC_HARNESS( arrays_0 ) { arrays<0>(); }
VC_HARNESS( arrays_1 ) { arrays<1>(); }
VC_HARNESS( arrays_2 ) { arrays<2>(); }
VC_HARNESS( arrays_3 ) { arrays<3>(); }
VC_HARNESS( arrays_6 ) { arrays<6>(); }
