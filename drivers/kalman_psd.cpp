// K02: an estimator whose covariances are covariances (symmetric, positive semidefinite) keeps a covariance,
// and a measurement never increases the uncertainty.
//@ .*: native=6000 budget=150
#define VC_QUAD
#include "matrix_common.hpp"
#include "dsp/kalman.hpp"

// The proof: P'' = (I-KH) P' (I-KH)^T + K R K^T and P' - P'' = K (HP'H^T + R) K^T for the filter's gain K, with P' = APA^T + Q.
// So the quadratic forms of P'' and P' - P'' at any y are sums of values of the forms of P, Q and R at vectors computed from y.
VC_LEMMA( sum )( double x, double y, double w, double z )
{
    vc_requires( x >= 0, "P is positive semidefinite" ); vc_requires( y >= 0, "Q is positive semidefinite" ); vc_requires( w >= 0, "R is positive semidefinite" );
    vc_requires( z == x+y+w, "the form is the sum of forms of P, Q and R" );
    vc_ensures( z >= 0, "sum is nonnegative" );
}

template< typename T, int N > matrix<T,N,N> any_symmetric()
{
    matrix<T,N,N> P(T(0));
#ifdef VC_NATIVE
    T L[N][N];
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < N; ++j ) L[i][j] = j <= i ? vc_any<T>() : T(0);
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < N; ++j ) for ( int k = 0; k < N; ++k ) P(i,j) += L[i][k]*L[j][k];
#else
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j <= i; ++j ) { T v = vc_any<T>(); P(i,j) = v; P(j,i) = v; }
#endif
    return P;
}
template< typename T, int N > T form( matrix<T,N,N> const & P, T const (&y)[N] )
{
    T s = 0;
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < N; ++j ) s += P(i,j)*y[i]*y[j];
    return s;
}
// P is positive semidefinite: for this y
template< typename T, int N > T psd( matrix<T,N,N> const & P, T const (&y)[N] )
{
    T f = form( P, y );
    if ( !vc_is_native() ) vc_assume( f >= 0 );
    return f;
}

template< typename T, int S, int M, int U > void update( bool later )
{
    auto A = any_matrix<T,S,S>(); auto B = any_matrix<T,S,U>(); auto H = any_matrix<T,M,S>(); auto Q = any_symmetric<T,S>(); auto R = any_symmetric<T,M>(); auto P = any_symmetric<T,S>();
    num::kalman<T,S,M,U> k( vc_any<T>(), A, B, H, Q, R, P, any_matrix<T,S,1>() );
    if ( later )
    {   // after any history that left a covariance
        k.update( any_matrix<T,U,1>(), any_matrix<T,M,1>() );
        vc_generalize( &k, sizeof k );
        P = k.estimation_error_covariance();
        if ( !vc_is_native() ) for ( int i = 0; i < S; ++i ) for ( int j = 0; j < i; ++j ) vc_assume( P(i,j) == P(j,i) );
    }
    // P' = APA^T + Q, innovation covariance V
    T AP[S][S], Pp[S][S], HP[M][S], V[M][M], scale = 0;
    for ( int i = 0; i < S; ++i ) for ( int j = 0; j < S; ++j ) { AP[i][j] = 0; for ( int n = 0; n < S; ++n ) AP[i][j] += A(i,n)*P(n,j); }
    for ( int i = 0; i < S; ++i ) for ( int j = 0; j < S; ++j ) { Pp[i][j] = Q(i,j); for ( int n = 0; n < S; ++n ) Pp[i][j] += AP[i][n]*A(j,n); }
    for ( int i = 0; i < M; ++i ) for ( int j = 0; j < S; ++j ) { HP[i][j] = 0; for ( int n = 0; n < S; ++n ) HP[i][j] += H(i,n)*Pp[n][j]; }
    for ( int i = 0; i < M; ++i ) for ( int j = 0; j < M; ++j ) { V[i][j] = R(i,j); for ( int n = 0; n < S; ++n ) V[i][j] += HP[i][n]*H(j,n); }
    if ( M == 1 ) { if ( vc_is_zero( V[0][0] ) ) vc_cover( "measurement without noise and without information" ); else vc_cover( "proper measurement" ); }
    else { vc_nonzero( T( V[0][0]*V[M-1][M-1] - V[0][M-1]*V[M-1][0] ) ); vc_cover( "proper measurement" ); }

    k.update( any_matrix<T,U,1>(), any_matrix<T,M,1>() );
    auto C = k.estimation_error_covariance(); auto K = k.kalman_gain();
    for ( int i = 0; i < S; ++i ) for ( int j = 0; j < i; ++j ) vc_same( static_cast<T>( C(i,j) ), static_cast<T>( C(j,i) ), "covariance stays symmetric" );
    T y[S], w[M], g[S], v[S], Av[S], Ag[S], less = 0;
    for ( int i = 0; i < S; ++i ) y[i] = vc_any<T>();
    for ( int i = 0; i < S; ++i ) scale += y[i]*y[i]*Pp[i][i];
    for ( int j = 0; j < M; ++j ) { w[j] = 0; for ( int i = 0; i < S; ++i ) w[j] += K(i,j)*y[i]; }
    for ( int i = 0; i < S; ++i ) { g[i] = 0; for ( int j = 0; j < M; ++j ) g[i] += H(j,i)*w[j]; v[i] = y[i] - g[i]; }
    for ( int i = 0; i < S; ++i ) { Av[i] = 0; Ag[i] = 0; for ( int n = 0; n < S; ++n ) { Av[i] += A(n,i)*v[n]; Ag[i] += A(n,i)*g[n]; } }
    T f = form( C, y ); for ( int i = 0; i < S; ++i ) for ( int j = 0; j < S; ++j ) less += ( Pp[i][j] - C(i,j) )*y[i]*y[j];
    T r = psd( R, w ), p = psd( P, Av ), q = psd( Q, v );
    VC_APPLY( sum, p, q, r, f );
    vc_nonneg( f, scale, "covariance is positive semidefinite" );
    T pg = psd( P, Ag ), qg = psd( Q, g );
    VC_APPLY( sum, pg, qg, r, less );
    vc_nonneg( less, scale, "a measurement does not increase the covariance: P' - P'' is positive semidefinite" );
}

VC_HARNESS( psd_211 ) { update<real,2,1,1>( false ); }
VC_HARNESS( psd_212 ) { update<real,2,1,2>( false ); }
VC_HARNESS( psd_221 ) { update<real,2,2,1>( false ); }
VC_HARNESS( psd_222 ) { update<real,2,2,2>( false ); }
VC_HARNESS( later_211 ) { update<real,2,1,1>( true ); }
VC_HARNESS( later_221 ) { update<real,2,2,1>( true ); }
VC_HARNESS( later_222 ) { update<real,2,2,2>( true ); }
