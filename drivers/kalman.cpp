// K01: one update of the estimator performs the Kalman filter equations, from any state that an
// estimator can be in, for every instantiation the matrix library supports.
//@ .*: native=6000 budget=100
#define VC_QUAD
#include "matrix_common.hpp"
#include "dsp/kalman.hpp"

using D22 = matrix<real,2,2>; using D21 = matrix<real,2,1>; using D12 = matrix<real,1,2>; using D11 = matrix<real,1,1>;

// --- contracts of the matrix operations the estimator is built from ---
#define PRODUCT( NAME, R, N, K, M, AT, BT ) \
    VC_CONTRACT( NAME, R, ( AT const & a, BT const & b ), a * b ) \
    { R r(0.0); for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) { real s = 0; for ( int k = 0; k < K; ++k ) s += a(i,k)*b(k,j); r(i,j) = s; } return r; } \
    VC_VERIFY( NAME ) { auto a = any_matrix<real,N,K>(); auto b = any_matrix<real,K,M>(); vc_cover("any operands"); \
        same( vc_target_##NAME(a,b), vc_spec_##NAME(a,b), "product" ); }

PRODUCT( mul22, D22, 2, 2, 2, D22, D22 )
PRODUCT( mul22v, D21, 2, 2, 1, D22, D21 )

VC_CONTRACT( add22, D22, ( D22 const & a, D22 const & b ), a + b )
{ D22 r(0.0); for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) r(i,j) = a(i,j) + b(i,j); return r; }
VC_VERIFY( add22 ) { auto a = any_matrix<real,2,2>(); auto b = any_matrix<real,2,2>(); vc_cover("any operands"); same( vc_target_add22(a,b), vc_spec_add22(a,b), "sum" ); }

VC_CONTRACT( sub22, D22, ( D22 const & a, D22 const & b ), a - b )
{ D22 r(0.0); for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) r(i,j) = a(i,j) - b(i,j); return r; }
VC_VERIFY( sub22 ) { auto a = any_matrix<real,2,2>(); auto b = any_matrix<real,2,2>(); vc_cover("any operands"); same( vc_target_sub22(a,b), vc_spec_sub22(a,b), "difference" ); }

VC_CONTRACT( transposed22, D22, ( D22 const & a ), transposed( a ) )
{ D22 r(0.0); for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) r(i,j) = a(j,i); return r; }
VC_VERIFY( transposed22 ) { auto a = any_matrix<real,2,2>(); vc_cover("any operand"); same( vc_target_transposed22(a), vc_spec_transposed22(a), "transpose" ); }

// --- the filter equations ----------------------------------------------
template< typename T, int M > struct system_matrices;

template< typename T, int M, int U > void step( bool second )
{
    using K = num::kalman<T,2,M,U>;
    auto A = any_matrix<T,2,2>(); auto B = any_matrix<T,2,U>(); auto H = any_matrix<T,M,2>();
    auto Q = any_matrix<T,2,2>(); auto R = any_matrix<T,M,M>(); auto P = any_matrix<T,2,2>(); auto x = any_matrix<T,2,1>();
    if ( M == 2 )
    {   // covariances are symmetric
        Q(1,0) = static_cast<T>( Q(0,1) ); P(1,0) = static_cast<T>( P(0,1) ); R(M-1,0) = static_cast<T>( R(0,M-1) );
    }
    T dt = vc_any<T>();
    K k( dt, A, B, H, Q, R, P, x );

    T t = 0;
    if ( second )
    {   // any earlier input: the state to start from is what the observers show
        for ( int i = 0; i < 2; ++i ) k.update( any_matrix<T,U,1>(), any_matrix<T,M,1>() );
        vc_generalize( &k, sizeof k );
        x = k.system_state(); P = k.estimation_error_covariance(); t = k.time();
        if ( vc_is_native() ) for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) vc_assume( P(i,j) < 1e6 && -P(i,j) < 1e6 && x(i) < 1e6 && -x(i) < 1e6 );   // an earlier step divided by noise
        if ( M == 2 && !vc_is_native() ) vc_assume( P(0,1) == P(1,0) );        // K02
    }
    auto u = any_matrix<T,U,1>(); auto z = any_matrix<T,M,1>();
    k.update( u, z );

    // predict
    T xp[2], AP[2][2], Pp[2][2], HP[M][2], S[M][M], Si[M][M], G[2][M], e[M];
    for ( int i = 0; i < 2; ++i ) { xp[i] = A(i,0)*x(0) + A(i,1)*x(1); for ( int j = 0; j < U; ++j ) xp[i] += B(i,j)*u(j,0); }
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) AP[i][j] = A(i,0)*P(0,j) + A(i,1)*P(1,j);
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) Pp[i][j] = AP[i][0]*A(j,0) + AP[i][1]*A(j,1) + Q(i,j);
    // innovation
    for ( int i = 0; i < M; ++i ) for ( int j = 0; j < 2; ++j ) HP[i][j] = H(i,0)*Pp[0][j] + H(i,1)*Pp[1][j];
    for ( int i = 0; i < M; ++i ) for ( int j = 0; j < M; ++j ) S[i][j] = HP[i][0]*H(j,0) + HP[i][1]*H(j,1) + R(i,j);
    for ( int i = 0; i < M; ++i ) e[i] = z(i,0) - ( H(i,0)*xp[0] + H(i,1)*xp[1] );
    bool regular = true;
    if ( vc_is_native() && second )     // rounding leaves a noise of the earlier steps where the exact value is singular
    {
        T d = M == 1 ? S[0][0] : S[0][0]*S[M-1][M-1] - S[0][M-1]*S[M-1][0];
        vc_assume( d > T(1e-9) || -d > T(1e-9) );
    }
    if ( M == 1 )
    {
        if ( vc_is_zero( S[0][0] ) ) { vc_cover("singular innovation: gain 0, prediction kept"); regular = false; Si[0][0] = 0; }
        else { vc_cover("regular innovation"); Si[0][0] = 1 / S[0][0]; }
    }
    else
    {
        T det = S[0][0]*S[M-1][M-1] - S[0][M-1]*S[M-1][0];
        vc_nonzero( det );
        vc_cover("regular innovation");
        Si[0][0] = S[M-1][M-1] / det; Si[M-1][M-1] = S[0][0] / det; Si[0][M-1] = -S[0][M-1] / det; Si[M-1][0] = -S[M-1][0] / det;
    }
    // correct
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < M; ++j )
    {
        G[i][j] = 0;
        for ( int a = 0; a < 2; ++a ) for ( int b = 0; b < M; ++b ) G[i][j] += Pp[i][a]*H(b,a)*Si[b][j];
    }
    auto xs = k.system_state(); auto Ps = k.estimation_error_covariance(); auto Gs = k.kalman_gain();
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < M; ++j ) vc_same( static_cast<T>( Gs(i,j) ), G[i][j], "gain = P'H^T(HP'H^T+R)^-1" );
    for ( int i = 0; i < 2; ++i )
    {
        T v = xp[i]; for ( int j = 0; j < M; ++j ) v += G[i][j]*e[j];
        vc_same( static_cast<T>( xs(i) ), v, "state = Ax+Bu + K(z-H(Ax+Bu))" );
    }
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j )
    {
        T v = Pp[i][j]; for ( int m = 0; m < M; ++m ) v -= G[i][m]*HP[m][j];
        vc_same( static_cast<T>( Ps(i,j) ), v, "covariance = (I-KH)(APA^T+Q)" );
    }
    vc_same( k.time(), t + dt, "time advances by dt" );
}

VC_HARNESS( update_211 ) { step<real,1,1>( false ); }
VC_HARNESS( update_212 ) { step<real,1,2>( false ); }
VC_HARNESS( update_221 ) { step<real,2,1>( false ); }
VC_HARNESS( update_222 ) { step<real,2,2>( false ); }
VC_HARNESS( update_213 ) { step<real,1,3>( false ); }
VC_HARNESS( update_223 ) { step<real,2,3>( false ); }
VC_HARNESS( update_218 ) { step<real,1,8>( false ); }
VC_HARNESS( update_211_float ) { step<realf,1,1>( false ); }
VC_HARNESS( update_212_float ) { step<realf,1,2>( false ); }
VC_HARNESS( next_211_float ) { step<realf,1,1>( true ); }
VC_HARNESS( next_213 ) { step<real,1,3>( true ); }
VC_HARNESS( next_211 ) { step<real,1,1>( true ); }
VC_HARNESS( next_212 ) { step<real,1,2>( true ); }
VC_HARNESS( next_221 ) { step<real,2,1>( true ); }
VC_HARNESS( next_222 ) { step<real,2,2>( true ); }
