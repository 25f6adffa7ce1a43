// M01..M06: the matrix library.  One translation unit; the property ids select harnesses by prefix.
//@ .*: native=4000 budget=100
#define VC_QUAD
#include "matrix_common.hpp"

#define LARGE( X ) X(1,17) X(33,1) X(16,16) X(6,20) X(12,9) X(65,2)
#define SHAPES( X ) X(1,1) X(1,2) X(2,1) X(1,3) X(3,1) X(2,2) X(2,3) X(3,2) X(3,3) X(4,4) X(1,5) X(5,2) X(1,8) X(9,1) X(5,5) X(3,7) X(8,2)
using i32 = int32_t;
#define ARITH( X ) X(float,realf) X(i64,int64_t) X(u32,uint32_t)
#define TYPES( X ) ARITH( X ) X(i16,int16_t) X(u8,uint8_t)

template< typename T, typename F > auto elem( T const & A, int i, int j, F ) -> decltype( A(i,j) ) { return A(i,j); }

// ---- M01 element access
template< typename T, int N, int M > void access()
{
    auto A = any_matrix<T,N,M>();
    vc_eq_i( A.rows(), N, "rows()" ); vc_eq_i( A.columns(), M, "columns()" ); vc_eq_i( A.size(), N*M, "size()" );
    auto const B = A;
    int r = vc_in<i32>( 0, N-1 ), c = vc_in<i32>( 0, M-1 );
    vc_cover("any element");
    T v = vc_any<T>();
    int how = vc_choose( 5 ), k = r*M + c;
    switch ( how )
    {
        case 0: A(r,c) = v; break;
        case 1: A.at(r,c) = v; break;
        case 2: A(k) = v; break;
        case 3: A[k] = v; break;
        default: A.at(k) = v; break;
    }
    auto const & C = A;
    vc_same( static_cast<T>( C(r,c) ), v, "written element reads back: (row,col)" );
    vc_same( static_cast<T>( C.at(r,c) ), v, "written element reads back: at(row,col)" );
    vc_same( static_cast<T>( C(k) ), v, "written element reads back: (index)" );
    vc_same( static_cast<T>( C[k] ), v, "written element reads back: [index]" );
    vc_same( static_cast<T>( C.at(k) ), v, "written element reads back: at(index)" );
    vc_same( static_cast<T>( A(r,c) ), v, "written element reads back through a non-const matrix" );
    int i = vc_in<i32>( 0, N-1 ), j = vc_in<i32>( 0, M-1 );
    vc_assume( ( i != r ) | ( j != c ) );
    vc_cover("another element");
    vc_same( static_cast<T>( C(i,j) ), static_cast<T>( B(i,j) ), "no other element changes" );
    vc_same( static_cast<T>( C(i*M+j) ), static_cast<T>( B(i,j) ), "no other element changes" );
}
template< typename T > void access1()       // a 1x1 matrix has no other element
{
    matrix<T,1,1> A( vc_any<T>() ); T v = vc_any<T>();
    vc_cover("only element");
    switch ( vc_choose( 5 ) )
    {
        case 0: A(0,0) = v; break;
        case 1: A.at(0,0) = v; break;
        case 2: A(0) = v; break;
        case 3: A[0] = v; break;
        default: A.at(0) = v; break;
    }
    auto const & C = A;
    vc_same( static_cast<T>( C(0,0) ), v, "written element reads back" ); vc_same( static_cast<T>( C.at(0,0) ), v, "written element reads back" );
    vc_same( static_cast<T>( C(0) ), v, "written element reads back" ); vc_same( static_cast<T>( C[0] ), v, "written element reads back" );
    vc_same( static_cast<T>( C.at(0) ), v, "written element reads back" );
    vc_eq_i( C.rows(), 1, "rows()" ); vc_eq_i( C.columns(), 1, "columns()" ); vc_eq_i( C.size(), 1, "size()" );
}
template< typename T, int N, int M > void iterate()
{
    auto A = any_matrix<T,N,M>(); auto const B = A;
    vc_cover("any matrix");
    int n = 0;
    for ( auto p = B.begin(); p != B.end(); ++p, ++n ) { vc_assert( n < N*M, "iteration ends" ); vc_same( *p, static_cast<T>( B(n/M,n%M) ), "iteration is row by row" ); }
    vc_eq_i( n, N*M, "iteration visits every element" );
    n = 0;
    for ( auto & x : A ) { x = B(N*M-1-n); ++n; }
    vc_eq_i( n, N*M, "iteration visits every element" );
    for ( int i = 0; i < N*M; ++i ) vc_same( static_cast<T>( A(i) ), static_cast<T>( B(N*M-1-i) ), "iterators refer to the elements" );
}
#define X(N,M) VC_HARNESS( access_##N##M ) { if ( N*M > 1 ) access<real,N,M>(); else access1<real>(); } \
    VC_HARNESS( access_i_##N##M ) { if ( N*M > 1 ) access<i32,N,M>(); else access1<i32>(); } \
    VC_HARNESS( iterate_##N##M ) { iterate<real,N,M>(); }
SHAPES( X )
#undef X
#define X(N,M) VC_HARNESS( access_##N##x##M ) { access<real,N,M>(); } VC_HARNESS( iterate_##N##x##M ) { iterate<int64_t,N,M>(); }
LARGE( X )
#undef X
#define X(n,T) VC_HARNESS( access_##n ) { access<T,2,3>(); access<T,3,3>(); } VC_HARNESS( iterate_##n ) { iterate<T,3,2>(); }
TYPES( X )
#undef X

// ---- M02 elementwise algebra
template< typename T, int N, int M > T el( matrix<T,N,M> const & A, int k ) { return A(k); }
template< typename T > T el( T v, int ) { return v; }

template< typename T, int N, int M > void elementwise()
{
    auto A = any_matrix<T,N,M>(); auto B = any_matrix<T,N,M>(); T v = vc_any<T>(); auto A0 = A; auto B0 = B;
    matrix<T,1,1> s( v );
    vc_cover("any operands");
    auto C = [&] { if constexpr ( N*M == 1 ) return A(0) + B; else return A + B; }();      // 1x1 + 1x1 does not compile (ambiguous)
    auto D = A - B; auto E = A + v; auto F = v + A; auto G = A - v; auto H = A * v; auto I = v * A;
    for ( int k = 0; k < N*M; ++k )
    {
        T a = A0(k), b = B0(k);
        vc_same( el<T>( C, k ), T( a + b ), "(A+B)[k] = A[k]+B[k]" ); vc_same( el<T>( D, k ), T( a - b ), "(A-B)[k] = A[k]-B[k]" );
        vc_same( el<T>( E, k ), T( a + v ), "(A+v)[k] = A[k]+v" );    vc_same( el<T>( F, k ), T( v + a ), "(v+A)[k] = v+A[k]" );
        vc_same( el<T>( G, k ), T( a - v ), "(A-v)[k] = A[k]-v" );
        vc_same( el<T>( H, k ), T( a * v ), "(A*v)[k] = A[k]*v" );    vc_same( el<T>( I, k ), T( v * a ), "(v*A)[k] = v*A[k]" );
    }
    same( A, A0, "operands are not modified" ); same( B, B0, "operands are not modified" );
}
template< typename T, int N, int M > void with_1x1()
{
    auto A = any_matrix<T,N,M>(); T v = vc_any<T>(); matrix<T,1,1> s( v ); auto A0 = A;
    vc_cover("any operands");
    auto C = A + s; auto D = s + A; auto E = A * s; auto F = s * A;
    for ( int k = 0; k < N*M; ++k )
    {
        T a = A0(k);
        vc_same( el<T>( C, k ), T( a + v ), "(A+1x1)[k]" ); vc_same( el<T>( D, k ), T( v + a ), "(1x1+A)[k]" );
        vc_same( el<T>( E, k ), T( a * v ), "(A*1x1)[k]" ); vc_same( el<T>( F, k ), T( v * a ), "(1x1*A)[k]" );
    }
    same( A, A0, "operand is not modified" ); vc_same( static_cast<T>( s(0) ), v, "operand is not modified" );
}
template< typename T > void scalar_1x1()
{
    T a = vc_any<T>(), b = vc_any<T>(), v = vc_any<T>(); matrix<T,1,1> A( a ), B( b );
    vc_cover("any operands");
    vc_same( el<T>( A + v, 0 ), T( a + v ), "1x1 + v" ); vc_same( el<T>( v + A, 0 ), T( v + a ), "v + 1x1" );
    vc_same( el<T>( A - v, 0 ), T( a - v ), "1x1 - v" ); vc_same( el<T>( v - A, 0 ), T( v - a ), "v - 1x1" );
    vc_same( el<T>( A * v, 0 ), T( a * v ), "1x1 * v" ); vc_same( el<T>( v * A, 0 ), T( v * a ), "v * 1x1" );
    vc_same( el<T>( A * B, 0 ), T( a * b ), "1x1 * 1x1" ); vc_same( el<T>( A - B, 0 ), T( a - b ), "1x1 - 1x1" );
}
#define X(N,M) VC_HARNESS( elementwise_##N##M ) { elementwise<real,N,M>(); } VC_HARNESS( elementwise_i_##N##M ) { elementwise<i32,N,M>(); }
SHAPES( X )
#undef X
#define X(N,M) VC_HARNESS( elementwise_##N##x##M ) { elementwise<real,N,M>(); }
LARGE( X )
#undef X
#define X(n,T) VC_HARNESS( elementwise_##n ) { elementwise<T,2,3>(); elementwise<T,3,3>(); with_1x1<T,3,2>(); scalar_1x1<T>(); }
ARITH( X )
#undef X
#define X(N,M) VC_HARNESS( with1x1_##N##M ) { with_1x1<real,N,M>(); } VC_HARNESS( with1x1_i_##N##M ) { with_1x1<i32,N,M>(); }
X(1,2) X(2,1) X(1,3) X(3,1) X(2,2) X(2,3) X(3,2) X(3,3) X(4,4) X(5,5) X(1,8) X(9,1)
#undef X
VC_HARNESS( scalar1x1 ) { scalar_1x1<real>(); }
VC_HARNESS( scalar1x1_i ) { scalar_1x1<i32>(); }

// ---- M03 products
template< typename T, int N, int M > T at( matrix<T,N,M> const & m, int r, int c ) { return m(r,c); }
template< typename T > T at( T v, int, int ) { return v; }

template< typename T, int N, int K, int M > void product()
{
    auto A = any_matrix<T,N,K>(); auto B = any_matrix<T,K,M>(); auto A0 = A; auto B0 = B;
    vc_cover("any operands");
    auto C = A * B;
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j )
    {
        T s = 0;
        for ( int k = 0; k < K; ++k ) s += A0(i,k)*B0(k,j);
        vc_same( at<T>( C, i, j ), s, "(AB)[i,j] = sum_k A[i,k] B[k,j]" );
    }
    same( A, A0, "operands are not modified" ); same( B, B0, "operands are not modified" );
}
#define X(N,K,M) VC_HARNESS( product_##N##K##M ) { product<real,N,K,M>(); } VC_HARNESS( product_i_##N##K##M ) { product<i32,N,K,M>(); }
#define X2(N,K) X(N,K,1) X(N,K,2) X(N,K,3)
X2(1,1) X2(1,2) X2(1,3) X2(2,1) X2(2,2) X2(2,3) X2(3,1) X2(3,2) X2(3,3) X(4,4,4) X(1,4,1) X(4,1,4) X(1,4,4) X(4,4,1)
X(2,5,2) X(2,6,3) X(3,7,2) X(1,8,1) X(1,9,2) X(2,9,1) X(5,2,6) X(6,6,6) X(7,1,8) X(8,2,1) X(1,2,8)
#undef X
#define X(N,K,M) VC_HARNESS( product_##N##x##K##x##M ) { product<real,N,K,M>(); }
X(1,17,1) X(2,33,2) X(16,16,2) X(17,3,2) X(1,2,20) X(1,65,1) X(9,10,11)
#undef X
#define X(n,T) VC_HARNESS( product_##n ) { product<T,2,3,2>(); product<T,3,1,3>(); product<T,1,4,1>(); product<T,4,4,4>(); product<T,1,3,2>(); product<T,3,2,1>(); }
ARITH( X )
#undef X

// ---- M04 transposition, identity
template< typename T, int N, int M > void transposition()
{
    auto A = any_matrix<T,N,M>(); auto A0 = A;
    vc_cover("any matrix");
    auto B = transposed( A );
    vc_eq_i( B.rows(), M, "rows of the transpose" ); vc_eq_i( B.columns(), N, "columns of the transpose" );
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) vc_same( static_cast<T>( B(j,i) ), static_cast<T>( A0(i,j) ), "transposed(A)[j,i] = A[i,j]" );
    same( A, A0, "operand is not modified" );
    same( transposed( B ), A0, "transposing twice gives the matrix back" );
}
#define X(N,M) VC_HARNESS( transposed_##N##M ) { transposition<real,N,M>(); } VC_HARNESS( transposed_i_##N##M ) { transposition<i32,N,M>(); }
X(1,2) X(2,1) X(1,3) X(3,1) X(1,4) X(4,1) X(1,5) X(5,1) X(1,8) X(9,1) X(2,2)
#undef X
VC_HARNESS( transposed_1x33 ) { transposition<real,1,33>(); } VC_HARNESS( transposed_33x1 ) { transposition<real,33,1>(); }
#define X(n,T) VC_HARNESS( transposed_##n ) { transposition<T,1,3>(); transposition<T,4,1>(); transposition<T,2,2>(); }
TYPES( X )
#undef X
template< typename T, int N > void identity()
{
    auto I = num::eye<T,N>();
    vc_cover("identity");
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < N; ++j ) vc_same( static_cast<T>( I(i,j) ), T( i == j ? 1 : 0 ), "eye" );
    auto A = any_matrix<T,N,N>();
    same( matrix<T,N,N>( I * A ), A, "I A = A" ); same( matrix<T,N,N>( A * I ), A, "A I = A" );
}
#define X(N) VC_HARNESS( eye_##N ) { identity<real,N>(); } VC_HARNESS( eye_i_##N ) { identity<i32,N>(); }
X(1) X(2) X(3) X(4) X(5) X(8)
#undef X
VC_HARNESS( eye_16 ) { identity<real,16>(); }
#define X(n,T) VC_HARNESS( eye_##n ) { identity<T,3>(); }
ARITH( X )
#undef X

// ---- M05 inversion
VC_HARNESS( inverted_scalar )
{
    real v = vc_any<real>(); real w = num::inverted( v );
    if ( vc_is_zero( v ) ) { vc_cover("zero"); vc_same( w, real(0), "inverted(0) = 0" ); }
    else { vc_cover("nonzero"); vc_same( real( w * v ), real(1), "inverted(v) v = 1" ); }
}
VC_HARNESS( inverted_symmetric )
{
    auto A = any_matrix<real,2,2>(); A(1,0) = static_cast<real>( A(0,1) ); auto A0 = A;
    vc_nonzero( real( A(0,0)*A(1,1) - A(0,1)*A(1,0) ) );
    vc_cover("regular symmetric matrix");
    auto B = num::inverted( A );
    same( A * B, num::eye<real,2>(), "A inverted(A) = I" ); same( B * A, num::eye<real,2>(), "inverted(A) A = I" );
    same( A, A0, "operand is not modified" );
}
VC_HARNESS( inverted_diagonal )
{
    matrix<real,2,2> A( real(0) ); A(0,0) = vc_any<real>(); A(1,1) = vc_any<real>();
    vc_nonzero( real( A(0,0)*A(1,1) ) );
    vc_cover("regular diagonal matrix");
    auto B = num::inverted( A );
    same( A * B, num::eye<real,2>(), "A inverted(A) = I" );
}
VC_HARNESS( inverted_general )
{
    auto A = any_matrix<real,2,2>();
    vc_nonzero( real( A(0,0)*A(1,1) - A(0,1)*A(1,0) ) );
    vc_cover("regular matrix");
    auto B = num::inverted( A );
    same( A * B, num::eye<real,2>(), "A inverted(A) = I (any regular A)" );
}
// what the listed finding about inverted_general does instead
VC_HARNESS( inverted_pinned )
{
    auto A = any_matrix<real,2,2>(); auto A0 = A;
    vc_nonzero( real( A(0,0)*A(1,1) - A(0,1)*A(1,0) ) );
    vc_cover("regular matrix");
    auto B = num::inverted( A );
    same( transposed( A ) * B, num::eye<real,2>(), "inverted(A) is the inverse of A or of its transpose" );
    same( A, A0, "operand is not modified" );
}

// ---- M06 construction
template< typename T, int N, int M > void construct()
{
    T v = vc_any<T>(); matrix<T,N,M> A( v );
    vc_cover("filled");
    for ( int k = 0; k < N*M; ++k ) vc_same( static_cast<T>( A(k) ), v, "matrix(v) has every element v" );
    auto B = any_matrix<T,N,M>(); auto B0 = B;
    matrix<T,N,M> C( B ); same( C, B0, "copy has the same elements" );
    C(N-1,M-1) = vc_any<T>(); C(0,0) = vc_any<T>(); same( B, B0, "copy is independent" );
    matrix<T,N,M> D( v ); D = B; same( D, B0, "assignment copies the elements" ); same( B, B0, "source of the assignment is unchanged" );
    D(0,0) = vc_any<T>(); same( B, B0, "assigned copy is independent" );
    matrix<T,N,M> E( v ); E = static_cast< matrix<T,N,M> && >( B ); same( E, B0, "move assignment takes the elements" );
    E = E; same( E, B0, "self-assignment" );
}
#define X(N,M) VC_HARNESS( construct_##N##M ) { construct<real,N,M>(); } VC_HARNESS( construct_i_##N##M ) { construct<i32,N,M>(); }
SHAPES( X )
#undef X
#define X(N,M) VC_HARNESS( construct_##N##x##M ) { construct<real,N,M>(); }
LARGE( X )
#undef X
template< typename T > void from_list()
{
    T a = vc_any<T>(), b = vc_any<T>(), c = vc_any<T>(), d = vc_any<T>(), e = vc_any<T>(), f = vc_any<T>();
    vc_cover("any values");
    matrix<T,2,2> A = { a, b, c, d };
    vc_same( static_cast<T>( A(0,0) ), a, "list is row by row" ); vc_same( static_cast<T>( A(0,1) ), b, "list is row by row" );
    vc_same( static_cast<T>( A(1,0) ), c, "list is row by row" ); vc_same( static_cast<T>( A(1,1) ), d, "list is row by row" );
    matrix<T,2,3> B = { a, b, c, d, e, f };
    vc_same( static_cast<T>( B(0,2) ), c, "list is row by row" ); vc_same( static_cast<T>( B(1,0) ), d, "list is row by row" ); vc_same( static_cast<T>( B(1,2) ), f, "list is row by row" );
    matrix<T,3,2> C = { a, b, c };
    for ( int k = 0; k < 6; ++k ) vc_same( static_cast<T>( C(k) ), k == 0 ? a : k == 1 ? b : k == 2 ? c : T(0), "a short list leaves the rest 0" );
    colvec<T,3> x = { a, b, c }; rowvec<T,2> y = { a, b };
    vc_same( static_cast<T>( x(2) ), c, "vector list" ); vc_same( static_cast<T>( x[1] ), b, "vector list" ); vc_same( static_cast<T>( y(1) ), b, "vector list" ); vc_same( static_cast<T>( y[0] ), a, "vector list" );
    matrix<T,1,1> z = { a }; vc_same( static_cast<T>( z(0) ), a, "1x1 list" );
}
// lists of every length
template< typename T, int N, int M > void holds( num::matrix<T,N,M> const & A, T const * v, int n )
{
    for ( int k = 0; k < N*M; ++k ) vc_same( static_cast<T>( A(k) ), k < n ? v[k] : T(0), "the list's elements in order, then zeros" );
}
template< typename T, int N, int M > void every_length()
{
    T v[6]; for ( int k = 0; k < 6; ++k ) v[k] = vc_any<T>();
    vc_cover("any values");
    { matrix<T,N,M> A = {}; holds( A, v, 0 ); }
    { matrix<T,N,M> A = { v[0] }; holds( A, v, 1 ); }
    if constexpr ( N*M >= 2 ) { matrix<T,N,M> A = { v[0], v[1] }; holds( A, v, 2 ); }
    if constexpr ( N*M >= 3 ) { matrix<T,N,M> A = { v[0], v[1], v[2] }; holds( A, v, 3 ); }
    if constexpr ( N*M >= 4 ) { matrix<T,N,M> A = { v[0], v[1], v[2], v[3] }; holds( A, v, 4 ); }
    if constexpr ( N*M >= 5 ) { matrix<T,N,M> A = { v[0], v[1], v[2], v[3], v[4] }; holds( A, v, 5 ); }
    if constexpr ( N*M >= 6 ) { matrix<T,N,M> A = { v[0], v[1], v[2], v[3], v[4], v[5] }; holds( A, v, 6 ); }
}
#define X(N,M) VC_HARNESS( list_##N##M ) { every_length<real,N,M>(); } VC_HARNESS( list_i_##N##M ) { every_length<i32,N,M>(); }
SHAPES( X )
#undef X
#define X(n,T) VC_HARNESS( construct_##n ) { construct<T,2,3>(); construct<T,3,3>(); construct<T,1,1>(); } VC_HARNESS( list_##n ) { every_length<T,2,2>(); every_length<T,3,2>(); }
TYPES( X )
#undef X
template< typename T > void long_list()
{
    T v[25]; for ( int k = 0; k < 25; ++k ) v[k] = vc_any<T>();
    vc_cover("any values");
    matrix<T,5,5> A = { v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24] };
    holds( A, v, 25 );
    matrix<T,5,5> B = { v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12] };
    holds( B, v, 13 );
    matrix<T,2,8> C = { v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9] };
    holds( C, v, 10 );
    colvec<T,9> x = { v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8] };
    holds( x, v, 9 );
}
VC_HARNESS( list_long ) { long_list<real>(); } VC_HARNESS( list_i_long ) { long_list<i32>(); }
VC_HARNESS( list ) { from_list<real>(); }
VC_HARNESS( list_i ) { from_list<i32>(); }
