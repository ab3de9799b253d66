/* C23: fixed-size matrices: every operator computes its definition, element by element */
#include <iostream>
#include <qlibs.h>
#include <include/mat.hpp>
#include "vf.h"
using namespace qlibs;
template<int R, int C> static void put( mat<R,C> &a, const char *n )
{
    for ( int i = 0 ; i < R ; ++i ) { for ( int j = 0 ; j < C ; ++j ) { const float v = vf_nd_f32( n, i*C + j ); vf_assume( ( v > -50.0f ) && ( v < 50.0f ) ); a[ i ][ j ] = v; } }
}
static float scalar( void ) { const float s = vf_nd_f32( "s", 0 ); vf_assume( ( s > -50.0f ) && ( s < 50.0f ) ); return s; }
#define ALL( R, C ) for ( int i = 0 ; i < R ; ++i ) for ( int j = 0 ; j < C ; ++j )
#define EQ( x, y, label ) vf_near( (x), (y), 1e-3, label )
template<int R, int C> static void elementwise( void )
{
    mat<R,C> a, b;
    ALL( R, C ) { EQ( a[ i ][ j ], 0.0f, "a new matrix is zero" ); }
    put<R,C>( a, "a" ); put<R,C>( b, "b" );
    const float s = scalar(); vf_assume( ( s > 0.0625f ) || ( s < -0.0625f ) );
    const mat<R,C> ca = a, cb = b;
    ALL( R, C ) { EQ( ca( i*C + j ), a[ i ][ j ], "linear index is row major" ); EQ( a( i*C + j ), a( i, j ), "linear index agrees with row and column" ); }
    const mat<R,C> p = ca + cb, q = ca - cb, n = -ca, t = ca*s, u = s*ca, v = ca/s, w = ca + s, x = s + ca, y = ca - s, z = s - ca;
    ALL( R, C ) {
        EQ( p[ i ][ j ], ca[ i ][ j ] + cb[ i ][ j ], "sum" ); EQ( q[ i ][ j ], ca[ i ][ j ] - cb[ i ][ j ], "difference" ); EQ( n[ i ][ j ], -ca[ i ][ j ], "negation" );
        EQ( t[ i ][ j ], s*ca[ i ][ j ], "scaling" ); EQ( u[ i ][ j ], s*ca[ i ][ j ], "scaling" ); EQ( v[ i ][ j ], ca[ i ][ j ]/s, "division by a scalar" );
        EQ( w[ i ][ j ], ca[ i ][ j ] + s, "sum with a scalar" ); EQ( x[ i ][ j ], ca[ i ][ j ] + s, "sum with a scalar" );
        EQ( y[ i ][ j ], ca[ i ][ j ] - s, "difference with a scalar" ); EQ( z[ i ][ j ], s - ca[ i ][ j ], "difference with a scalar" );
    }
    vf_reach( "end" );
}
HARNESS( h_elem_22 ) { elementwise<2,2>(); }
HARNESS( h_elem_23 ) { elementwise<2,3>(); }
HARNESS( h_elem_31 ) { elementwise<3,1>(); }
HARNESS( h_elem_14 ) { elementwise<1,4>(); }
HARNESS( h_elem_33 ) { elementwise<3,3>(); }
template<int R, int C> static void compound( void )
{
    mat<R,C> a, b; put<R,C>( a, "a" ); put<R,C>( b, "b" );
    const float s = scalar(); vf_assume( ( s > 0.0625f ) || ( s < -0.0625f ) );
    const mat<R,C> ca = a;
    mat<R,C> x;
    x = ca; { mat<R,C> &r = ( x += b ); vf_assert( &r == &x, "compound operators return the object" ); ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ] + b[ i ][ j ], "+= matrix" ); } }
    x = ca; { mat<R,C> &r = ( x -= b ); vf_assert( &r == &x, "compound operators return the object" ); ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ] - b[ i ][ j ], "-= matrix" ); } }
    x = ca; { mat<R,C> &r = ( x *= s ); vf_assert( &r == &x, "compound operators return the object" ); ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ]*s, "*= scalar" ); } }
    x = ca; { mat<R,C> &r = ( x /= s ); vf_assert( &r == &x, "compound operators return the object" ); ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ]/s, "/= scalar" ); } }
    x = ca; { mat<R,C> &r = ( x += s ); vf_assert( &r == &x, "compound operators return the object" ); ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ] + s, "+= scalar" ); } }
    x = ca; { mat<R,C> &r = ( x -= s ); vf_assert( &r == &x, "compound operators return the object" ); ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ] - s, "-= scalar" ); } }
    x = ca; { mat<R,C> &r = ++x; vf_assert( &r == &x, "pre-increment returns the object" ); ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ] + 1.0f, "pre-increment" ); } }
    x = ca; { mat<R,C> &r = --x; vf_assert( &r == &x, "pre-decrement returns the object" ); ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ] - 1.0f, "pre-decrement" ); } }
    x = ca; { const mat<R,C> o = x++; ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ] + 1.0f, "post-increment" ); EQ( o[ i ][ j ], ca[ i ][ j ], "post-increment returns the previous value" ); } }
    x = ca; { const mat<R,C> o = x--; ALL( R, C ) { EQ( x[ i ][ j ], ca[ i ][ j ] - 1.0f, "post-decrement" ); EQ( o[ i ][ j ], ca[ i ][ j ], "post-decrement returns the previous value" ); } }
    x = ca; x += x; ALL( R, C ) { EQ( x[ i ][ j ], 2.0f*ca[ i ][ j ], "+= itself" ); }
    x = x; ALL( R, C ) { EQ( x[ i ][ j ], 2.0f*ca[ i ][ j ], "self-assignment changes nothing" ); }
    x = ca; x -= x; ALL( R, C ) { EQ( x[ i ][ j ], 0.0f, "-= itself" ); }
    vf_reach( "end" );
}
HARNESS( h_comp_22 ) { compound<2,2>(); }
HARNESS( h_comp_23 ) { compound<2,3>(); }
HARNESS( h_comp_31 ) { compound<3,1>(); }
template<int R, int K, int C> static void mulp( void )
{
    mat<R,K> a; mat<K,C> b; put<R,K>( a, "a" ); put<K,C>( b, "b" );
    const mat<R,C> p = a*b;
    const mat<K,R> t = !a;
    ALL( R, C ) { float w = 0.0f; for ( int k = 0 ; k < K ; ++k ) { w += a[ i ][ k ]*b[ k ][ j ]; } EQ( p[ i ][ j ], w, "product" ); }
    ALL( R, K ) { EQ( t[ j ][ i ], a[ i ][ j ], "transpose" ); }
    vf_reach( "end" );
}
HARNESS( h_prod_222 ) { mulp<2,2,2>(); }
HARNESS( h_prod_232 ) { mulp<2,3,2>(); }
HARNESS( h_prod_321 ) { mulp<3,2,1>(); }
HARNESS( h_prod_123 ) { mulp<1,2,3>(); }
HARNESS( h_prod_312 ) { mulp<3,1,2>(); }
HARNESS( h_prod_333 ) { mulp<3,3,3>(); }
template<int N> static void square( void )
{
    mat<N,N> a, b; put<N,N>( a, "a" ); put<N,N>( b, "b" );
    const mat<N,N> ca = a;
    const float s = scalar();
    const mat<N,N> I( MAT_IDENTITY ), S( MAT_IDENTITY, s ), Z( MAT_ZERO ), A( MAT_ALL, s ), O( MAT_ALL );
    ALL( N, N ) {
        EQ( I[ i ][ j ], ( i == j ) ? 1.0f : 0.0f, "identity" ); EQ( S[ i ][ j ], ( i == j ) ? s : 0.0f, "scaled identity" );
        EQ( Z[ i ][ j ], 0.0f, "zero" ); EQ( A[ i ][ j ], s, "constant" ); EQ( O[ i ][ j ], 1.0f, "constant of one" );
    }
    mat<N,N> &r = ( a *= b ); vf_assert( &r == &a, "compound product returns the object" );
    ALL( N, N ) { float w = 0.0f; for ( int k = 0 ; k < N ; ++k ) { w += ca[ i ][ k ]*b[ k ][ j ]; } EQ( a[ i ][ j ], w, "compound product" ); }
    a = ca; a *= a;
    ALL( N, N ) { float w = 0.0f; for ( int k = 0 ; k < N ; ++k ) { w += ca[ i ][ k ]*ca[ k ][ j ]; } EQ( a[ i ][ j ], w, "compound product with itself" ); }
    vf_reach( "end" );
}
HARNESS( h_square1 ) { square<1>(); }
HARNESS( h_square2 ) { square<2>(); }
HARNESS( h_square3 ) { square<3>(); }
HARNESS( h_list )
{
    float v[ 6 ]; for ( int i = 0 ; i < 6 ; ++i ) { v[ i ] = vf_nd_f32( "a", i ); vf_assume( ( v[ i ] > -50.0f ) && ( v[ i ] < 50.0f ) ); }
    mat<2,3> m( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] );
    ALL( 2, 3 ) { EQ( m( i, j ), v[ 3*i + j ], "a list fills the rows in order" ); }
    mat<3,2> o( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] );
    ALL( 3, 2 ) { EQ( o( i, j ), v[ 2*i + j ], "a list fills the rows in order" ); }
    m( 4 ) = 7.0f; ALL( 2, 3 ) { EQ( m( i, j ), ( 4 == 3*i + j ) ? 7.0f : v[ 3*i + j ], "a write changes the addressed element only" ); }
    m( 0, 2 ) = 8.0f; EQ( m[ 0 ][ 2 ], 8.0f, "a write changes the addressed element" ); EQ( m[ 1 ][ 2 ], v[ 5 ], "a write changes the addressed element only" );
    vf_reach( "end" );
}
template<int R, int C> static void norm( void )
{
    mat<R,C> a; put<R,C>( a, "a" );
    const float n = a.normInf();
    bool hit = false, above = true;
    for ( int i = 0 ; i < R ; ++i ) {
        float w = 0.0f; for ( int j = 0 ; j < C ; ++j ) { w += ( a[ i ][ j ] < 0.0f ) ? -a[ i ][ j ] : a[ i ][ j ]; }
        above = above && ( n >= w - 1.0e-3f ); hit = hit || ( ( n - w < 1.0e-3f ) && ( w - n < 1.0e-3f ) );
    }
    vf_assert( above && hit, "the infinity norm is the largest row sum of magnitudes" );
    vf_reach( "end" );
}
HARNESS( h_norm_22 ) { norm<2,2>(); }
HARNESS( h_norm_23 ) { norm<2,3>(); }
HARNESS( h_norm_32 ) { norm<3,2>(); }
HARNESS( h_norm_13 ) { norm<1,3>(); }
HARNESS( h_norm_31 ) { norm<3,1>(); }
HARNESS( h_norm_33 ) { norm<3,3>(); }
/* --- inverse */
static float det( const mat<1,1> &a ) { return a[ 0 ][ 0 ]; }
static float det( const mat<2,2> &a ) { return a[ 0 ][ 0 ]*a[ 1 ][ 1 ] - a[ 0 ][ 1 ]*a[ 1 ][ 0 ]; }
static float det( const mat<3,3> &a )
{
    return a[ 0 ][ 0 ]*( a[ 1 ][ 1 ]*a[ 2 ][ 2 ] - a[ 1 ][ 2 ]*a[ 2 ][ 1 ] ) - a[ 0 ][ 1 ]*( a[ 1 ][ 0 ]*a[ 2 ][ 2 ] - a[ 1 ][ 2 ]*a[ 2 ][ 0 ] ) + a[ 0 ][ 2 ]*( a[ 1 ][ 0 ]*a[ 2 ][ 1 ] - a[ 1 ][ 1 ]*a[ 2 ][ 0 ] );
}
template<int N> static void check_inv( const mat<N,N> &a )
{
    const float d = det( a ); vf_assume( ( d > 0.0625f ) || ( d < -0.0625f ) );
    const mat<N,N> x = a.inv();
    ALL( N, N ) { float w = 0.0f; for ( int k = 0 ; k < N ; ++k ) { w += a[ i ][ k ]*x[ k ][ j ]; } vf_near( w, ( i == j ) ? 1.0f : 0.0f, 5e-2, "a matrix times its inverse is the identity" ); }
    vf_reach( "end" );
}
HARNESS( h_inv1 ) { mat<1,1> a; put<1,1>( a, "a" ); check_inv<1>( a ); }
HARNESS( h_inv2 ) { mat<2,2> a; put<2,2>( a, "a" ); check_inv<2>( a ); }
HARNESS( h_inv3 ) { mat<3,3> a; put<3,3>( a, "a" ); check_inv<3>( a ); }
/* three by three, one symbolic row or column at a time, around matrices with zero pivots */
static void inv3( const float *c, int row, bool col )
{
    mat<3,3> a;
    for ( int i = 0 ; i < 3 ; ++i ) for ( int j = 0 ; j < 3 ; ++j ) { a[ i ][ j ] = c[ 3*i + j ]; }
    for ( int k = 0 ; k < 3 ; ++k ) { const float v = vf_nd_f32( "a", k ); vf_assume( ( v > -50.0f ) && ( v < 50.0f ) ); if ( col ) { a[ k ][ row ] = v; } else { a[ row ][ k ] = v; } }
    check_inv<3>( a );
}
static const float M1[ 9 ] = { 0.0f, 2.0f, 1.0f, 1.0f, 0.0f, 3.0f, 4.0f, -3.0f, 8.0f };
static const float M2[ 9 ] = { 2.0f, -1.0f, 0.0f, 4.0f, -2.0f, 5.0f, 1.0f, 3.0f, 1.0f };
HARNESS( h_inv3_r0 ) { inv3( M1, 0, false ); }
HARNESS( h_inv3_r1 ) { inv3( M1, 1, false ); }
HARNESS( h_inv3_r2 ) { inv3( M1, 2, false ); }
HARNESS( h_inv3_c0 ) { inv3( M1, 0, true ); }
HARNESS( h_inv3_c1 ) { inv3( M1, 1, true ); }
HARNESS( h_inv3_c2 ) { inv3( M1, 2, true ); }
HARNESS( h_inv3_s0 ) { inv3( M2, 0, false ); }
HARNESS( h_inv3_s1 ) { inv3( M2, 1, false ); }
HARNESS( h_inv3_s2 ) { inv3( M2, 2, false ); }
