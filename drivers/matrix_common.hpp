#ifndef MATRIX_COMMON_HPP
#define MATRIX_COMMON_HPP
#include "vc.hpp"
#include "num/matrix.hpp"

using num::matrix; using num::colvec; using num::rowvec;

// an arbitrary matrix, built through the public element access only
template< typename T, int N, int M > matrix<T,N,M> any_matrix()
{
    matrix<T,N,M> A(T(0));
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) A(i,j) = vc_any<T>();
    return A;
}

template< typename T, int N, int M > void same( matrix<T,N,M> const & A, matrix<T,N,M> const & B, char const * n )
{
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) vc_same( static_cast<T>(A(i,j)), static_cast<T>(B(i,j)), n );
}
#endif
