// K03: construction, observers, time and frame.
//@ .*: native=3000 budget=100
#define VC_QUAD
#include "matrix_common.hpp"
#include "dsp/kalman.hpp"

template< typename T, int M, int U > struct in
{
    matrix<T,2,2> A = any_matrix<T,2,2>(); matrix<T,2,U> B = any_matrix<T,2,U>(); matrix<T,M,2> H = any_matrix<T,M,2>(); matrix<T,2,2> Q = any_matrix<T,2,2>();
    matrix<T,M,M> R = any_matrix<T,M,M>(); matrix<T,2,2> P = any_matrix<T,2,2>(); matrix<T,2,1> x = any_matrix<T,2,1>(); T dt = vc_any<T>();
    num::kalman<T,2,M,U> make() const { return num::kalman<T,2,M,U>( dt, A, B, H, Q, R, P, x ); }
};

template< typename K > void equal( K const & a, K const & b, char const * n )
{
    same( a.system_state(), b.system_state(), n );
    same( a.estimation_error_covariance(), b.estimation_error_covariance(), n );
    same( a.kalman_gain(), b.kalman_gain(), n );
    vc_same( a.time(), b.time(), n );
}

template< typename T, int M, int U > void initial()
{
    in<T,M,U> i; auto k = i.make();
    vc_cover("constructed");
    same( k.system_state(), i.x, "initial state estimate is the one given" );
    same( k.estimation_error_covariance(), i.P, "initial covariance is the one given" );
    vc_same( k.time(), T(0), "time starts at 0" );
    same( k.kalman_gain(), matrix<T,2,M>( T(0) ), "gain is 0 before the first update" );
}

template< typename T, int M, int U > void frame()
{
    in<T,M,U> i; auto k = i.make();
    auto u1 = any_matrix<T,U,1>(); auto z1 = any_matrix<T,M,1>();
    k.update( u1, z1 );
    vc_generalize( &k, sizeof k );
    auto k2 = k;                                    // a copy is the same estimator
    vc_cover("updated once");
    equal( k, k2, "copy shows the same state" );
    auto x = k.system_state(); auto P = k.estimation_error_covariance(); auto G = k.kalman_gain(); T t = k.time();
    auto u = any_matrix<T,U,1>(); auto z = any_matrix<T,M,1>(); auto uu = u; auto zz = z;
    k2.update( u, z );
    same( u, uu, "inputs are not modified" ); same( z, zz, "inputs are not modified" );
    same( k.system_state(), x, "other estimator not affected" ); same( k.estimation_error_covariance(), P, "other estimator not affected" );
    same( k.kalman_gain(), G, "other estimator not affected" ); vc_same( k.time(), t, "other estimator not affected" );
    vc_same( k2.time(), t + i.dt, "time advances by dt" );
    (void) k2.system_state(); (void) k2.kalman_gain(); (void) k2.estimation_error_covariance(); (void) k2.time();
    auto k3 = k2;
    equal( k2, k3, "observers do not change the estimator" );
    k.update( u, z );
    equal( k, k2, "update is a function of state and inputs" );
}

template< typename T, int M, int U > void matrices_copied()
{
    in<T,M,U> i; auto j = i; auto k = i.make(); auto l = j.make();
    // the estimator holds its own copies: later changes to what it was built from have no effect
    i.A = any_matrix<T,2,2>(); i.B = any_matrix<T,2,U>(); i.H = any_matrix<T,M,2>(); i.Q = any_matrix<T,2,2>(); i.R = any_matrix<T,M,M>();
    i.P = any_matrix<T,2,2>(); i.x = any_matrix<T,2,1>();
    auto u = any_matrix<T,U,1>(); auto z = any_matrix<T,M,1>();
    vc_cover("arguments changed afterwards");
    k.update( u, z ); l.update( u, z );
    equal( k, l, "estimator keeps its own copy of the model" );
}

VC_HARNESS( initial_211 ) { initial<real,1,1>(); }
VC_HARNESS( initial_212 ) { initial<real,1,2>(); }
VC_HARNESS( initial_221 ) { initial<real,2,1>(); }
VC_HARNESS( initial_222 ) { initial<real,2,2>(); }
VC_HARNESS( frame_211 ) { frame<real,1,1>(); }
VC_HARNESS( frame_212 ) { frame<real,1,2>(); }
VC_HARNESS( frame_221 ) { frame<real,2,1>(); }
VC_HARNESS( frame_222 ) { frame<real,2,2>(); }
VC_HARNESS( copies_211 ) { matrices_copied<real,1,1>(); }
VC_HARNESS( copies_222 ) { matrices_copied<real,2,2>(); }
VC_HARNESS( initial_213 ) { initial<real,1,3>(); }
VC_HARNESS( frame_213 ) { frame<real,1,3>(); }
VC_HARNESS( frame_211_float ) { frame<realf,1,1>(); }
VC_HARNESS( copies_213 ) { matrices_copied<real,1,3>(); }
VC_HARNESS( copies_221 ) { matrices_copied<real,2,1>(); }
