/* C18: one-dimensional interpolation over a strictly ascending table */
#include <qlibs.h>
#include "vf.h"
using namespace qlibs;
template<int N> struct table {
    float x[ N ], y[ N ];
    table( int fixed = 0 ) {
        static const float fx[ 3 ][ 6 ] = { { -3.0f, -2.0f, 0.5f, 2.0f, 6.0f, 7.0f }, { 1.0f, 3.0f, 4.0f, 8.0f, 9.0f, 12.0f }, { -8.0f, -4.0f, -3.0f, -1.0f, -0.5f, 0.0f } };
        if ( fixed > 0 ) {
            for ( int i = 0 ; i < N ; ++i ) { x[ i ] = fx[ fixed - 1 ][ i ]; y[ i ] = vf_nd_f32( "ty", i ); vf_assume( ( y[ i ] > -100.0f ) && ( y[ i ] < 100.0f ) ); }
            return;
        }
        for ( int i = 0 ; i < N ; ++i ) {
            x[ i ] = vf_nd_f32( "tx", i ); y[ i ] = vf_nd_f32( "ty", i );
            vf_assume( ( x[ i ] > -100.0f ) && ( x[ i ] < 100.0f ) && ( y[ i ] > -100.0f ) && ( y[ i ] < 100.0f ) );
            if ( i > 0 ) { vf_assume( ( x[ i ] - x[ i - 1 ] ) > 0.0625f ); }
        }
    }
    void bumpy( void ) { for ( int i = 1 ; i < N ; ++i ) { const float d = y[ i ] - y[ i - 1 ]; vf_assume( ( d > 0.0625f ) || ( d < -0.0625f ) ); } }
    float s( int i ) const { return ( y[ i + 1 ] - y[ i ] )/( x[ i + 1 ] - x[ i ] ); }
};
/* --- every method returns the tabulated value at each table point */
template<int N> static void knots( interp1Method m, int fixed = 0 )
{
    table<N> t( fixed ); if ( INTERP1_CONSTRAINED_SPLINE == m ) { t.bumpy(); }
    interp1 p( t.x, t.y );
    vf_assert( p.setMethod( m ), "method accepted" );
    for ( int i = 0 ; i < N ; ++i ) { vf_near( p.get( t.x[ i ] ), t.y[ i ], 1e-2, "the tabulated value is returned at each table point" ); }
    vf_reach( "end" );
}
HARNESS( h_knot_next ) { knots<4>( INTERP1_NEXT ); }
HARNESS( h_knot_prev ) { knots<4>( INTERP1_PREVIOUS ); }
HARNESS( h_knot_near ) { knots<4>( INTERP1_NEAREST ); }
HARNESS( h_knot_lin ) { knots<4>( INTERP1_LINEAR ); }
HARNESS( h_knot_lin2 ) { knots<2>( INTERP1_LINEAR ); }
HARNESS( h_knot_sine ) { knots<4>( INTERP1_SINE ); }
HARNESS( h_knot_cub ) { knots<4>( INTERP1_CUBIC ); }
HARNESS( h_knot_cub5 ) { knots<5>( INTERP1_CUBIC ); }
HARNESS( h_knot_her ) { knots<4>( INTERP1_HERMITE ); }
HARNESS( h_knot_spl ) { knots<4>( INTERP1_SPLINE ); }
HARNESS( h_knot_spl5 ) { knots<5>( INTERP1_SPLINE ); }
HARNESS( h_knot_csp ) { knots<4>( INTERP1_CONSTRAINED_SPLINE, 1 ); }
HARNESS( h_knot_csp5 ) { knots<5>( INTERP1_CONSTRAINED_SPLINE, 2 ); }
/* --- value inside interval K (x between points K and K+1; K=-1 left of the table, K=N-1 right of it) */
template<int N> static float at( const table<N> &t, int K )
{
    const float x = vf_nd_f32( "x", 0 );
    vf_assume( ( x > -200.0f ) && ( x < 200.0f ) );
    if ( K >= 0 ) { vf_assume( x > ( t.x[ K ] + 0.0078125f ) ); }
    if ( K < ( N - 1 ) ) { vf_assume( x < ( t.x[ K + 1 ] - 0.0078125f ) ); }
    return x;
}
template<int N> static int seg( int K ) { return ( K < 0 ) ? 0 : ( ( K > ( N - 2 ) ) ? ( N - 2 ) : K ); }
static float herm( float x, float x0, float x1, float y0, float y1, float m0, float m1 )
{
    const float h = x1 - x0, t = ( x - x0 )/h;
    return y0 + ( y1 - y0 )*t*t*( 3.0f - 2.0f*t ) + h*m0*t*( 1.0f - t )*( 1.0f - t ) - h*m1*t*t*( 1.0f - t );
}
/* slope of the Catmull-Rom spline at point i: secant of both neighbours, one-sided at the ends */
template<int N> static float crSlope( const table<N> &t, int i )
{
    const int a = ( i > 0 ) ? i - 1 : 0, b = ( i < ( N - 1 ) ) ? i + 1 : N - 1;
    return ( t.y[ b ] - t.y[ a ] )/( t.x[ b ] - t.x[ a ] );
}
/* slope of the constrained spline at point i: harmonic mean of the neighbouring secants, zero when they differ in sign */
template<int N> static float csSlope( const table<N> &t, int i )
{
    if ( 0 == i ) { return 1.5f*t.s( 0 ) - 0.5f*csSlope<N>( t, 1 ); }
    if ( ( N - 1 ) == i ) { return 1.5f*t.s( N - 2 ) - 0.5f*csSlope<N>( t, N - 2 ); }
    const float a = t.s( i - 1 ), b = t.s( i );
    return ( ( a > 0.0f ) == ( b > 0.0f ) ) ? ( 2.0f*a*b/( a + b ) ) : 0.0f;
}
template<int N, int K, interp1Method M> static void law( int fixed = 0 )
{
    table<N> t( fixed ); if ( INTERP1_CONSTRAINED_SPLINE == M ) { t.bumpy(); }
    const float x = at<N>( t, K );
    const int i = seg<N>( K );
    const float x0 = t.x[ i ], x1 = t.x[ i + 1 ], y0 = t.y[ i ], y1 = t.y[ i + 1 ];
    interp1 p( t.x, t.y );
    vf_assert( p.setMethod( M ), "method accepted" );
    const float o = p.get( x );
    vf_observe( "o", 0, o );
    float want;
    if ( INTERP1_NEXT == M ) { want = t.y[ ( K < ( N - 1 ) ) ? K + 1 : N - 1 ]; }
    else if ( INTERP1_PREVIOUS == M ) { want = t.y[ ( K > 0 ) ? K : 0 ]; }
    else if ( INTERP1_NEAREST == M ) { const float d = ( x - x0 ) - ( x1 - x ); vf_assume( ( d > 0.0078125f ) || ( d < -0.0078125f ) ); want = ( d > 0.0f ) ? y1 : y0; }
    else if ( INTERP1_LINEAR == M ) { want = y0 + t.s( i )*( x - x0 ); }
    else if ( ( INTERP1_SINE == M ) && ( K >= ( N - 1 ) ) ) { want = y1 + ( 0.5f - 0.5f*ffmath::cos( ffmath::FFP_PI*( x - x1 )/( x0 - x1 ) ) )*( y0 - y1 ); }
    else if ( INTERP1_SINE == M ) { want = y0 + ( 0.5f - 0.5f*ffmath::cos( ffmath::FFP_PI*( x - x0 )/( x1 - x0 ) ) )*( y1 - y0 ); }
    else if ( ( INTERP1_CUBIC == M ) && ( K < 0 ) ) { want = herm( x, x0, x1, y0, y1, y0 - y1, y1 - y0 ); }
    else if ( ( INTERP1_CUBIC == M ) && ( K >= ( N - 1 ) ) ) { const float h = x1 - x0, u = ( x - x1 )/h; want = herm( u, 0.0f, 1.0f, y1, y0, h*( y0 - t.y[ ( N > 2 ) ? N - 3 : 0 ] ), h*( y1 - y0 ) ); }
    else if ( INTERP1_CUBIC == M ) { want = herm( x, x0, x1, y0, y1, ( i > 0 ) ? ( y0 - t.y[ ( i > 0 ) ? i - 1 : 0 ] ) : ( y1 - y0 ), y1 - y0 ); }
    else if ( INTERP1_HERMITE == M ) {
        want = y0 + t.s( i )*( x - x0 );
        if ( ( K >= 0 ) && ( K < ( N - 1 ) ) ) {
            want = 0.0f;
            for ( int a = 0 ; a < N ; ++a ) { float w = 1.0f; for ( int b = 0 ; b < N ; ++b ) { if ( a != b ) { w *= ( x - t.x[ b ] )/( t.x[ a ] - t.x[ b ] ); } } want += w*t.y[ a ]; }
        }
    }
    else if ( INTERP1_SPLINE == M ) { want = herm( x, x0, x1, y0, y1, crSlope<N>( t, i ), crSlope<N>( t, i + 1 ) ); }
    else { want = herm( x, x0, x1, y0, y1, csSlope<N>( t, i ), csSlope<N>( t, i + 1 ) ); }
    vf_near( o, want, 2e-2, "value of the named interpolation in its interval" );
    vf_reach( "end" );
}
HARNESS( h_next4_L ) { law<4,-1,INTERP1_NEXT>(); }
HARNESS( h_next4_0 ) { law<4,0,INTERP1_NEXT>(); }
HARNESS( h_next4_1 ) { law<4,1,INTERP1_NEXT>(); }
HARNESS( h_next4_2 ) { law<4,2,INTERP1_NEXT>(); }
HARNESS( h_next4_3 ) { law<4,3,INTERP1_NEXT>(); }
HARNESS( h_next5_L ) { law<5,-1,INTERP1_NEXT>(); }
HARNESS( h_next5_0 ) { law<5,0,INTERP1_NEXT>(); }
HARNESS( h_next5_1 ) { law<5,1,INTERP1_NEXT>(); }
HARNESS( h_next5_2 ) { law<5,2,INTERP1_NEXT>(); }
HARNESS( h_next5_3 ) { law<5,3,INTERP1_NEXT>(); }
HARNESS( h_next5_4 ) { law<5,4,INTERP1_NEXT>(); }
HARNESS( h_prev4_L ) { law<4,-1,INTERP1_PREVIOUS>(); }
HARNESS( h_prev4_0 ) { law<4,0,INTERP1_PREVIOUS>(); }
HARNESS( h_prev4_1 ) { law<4,1,INTERP1_PREVIOUS>(); }
HARNESS( h_prev4_2 ) { law<4,2,INTERP1_PREVIOUS>(); }
HARNESS( h_prev4_3 ) { law<4,3,INTERP1_PREVIOUS>(); }
HARNESS( h_prev5_L ) { law<5,-1,INTERP1_PREVIOUS>(); }
HARNESS( h_prev5_0 ) { law<5,0,INTERP1_PREVIOUS>(); }
HARNESS( h_prev5_1 ) { law<5,1,INTERP1_PREVIOUS>(); }
HARNESS( h_prev5_2 ) { law<5,2,INTERP1_PREVIOUS>(); }
HARNESS( h_prev5_3 ) { law<5,3,INTERP1_PREVIOUS>(); }
HARNESS( h_prev5_4 ) { law<5,4,INTERP1_PREVIOUS>(); }
HARNESS( h_near4_L ) { law<4,-1,INTERP1_NEAREST>(); }
HARNESS( h_near4_0 ) { law<4,0,INTERP1_NEAREST>(); }
HARNESS( h_near4_1 ) { law<4,1,INTERP1_NEAREST>(); }
HARNESS( h_near4_2 ) { law<4,2,INTERP1_NEAREST>(); }
HARNESS( h_near4_3 ) { law<4,3,INTERP1_NEAREST>(); }
HARNESS( h_near5_L ) { law<5,-1,INTERP1_NEAREST>(); }
HARNESS( h_near5_0 ) { law<5,0,INTERP1_NEAREST>(); }
HARNESS( h_near5_1 ) { law<5,1,INTERP1_NEAREST>(); }
HARNESS( h_near5_2 ) { law<5,2,INTERP1_NEAREST>(); }
HARNESS( h_near5_3 ) { law<5,3,INTERP1_NEAREST>(); }
HARNESS( h_near5_4 ) { law<5,4,INTERP1_NEAREST>(); }
HARNESS( h_lin4_L ) { law<4,-1,INTERP1_LINEAR>(); }
HARNESS( h_lin4_0 ) { law<4,0,INTERP1_LINEAR>(); }
HARNESS( h_lin4_1 ) { law<4,1,INTERP1_LINEAR>(); }
HARNESS( h_lin4_2 ) { law<4,2,INTERP1_LINEAR>(); }
HARNESS( h_lin4_3 ) { law<4,3,INTERP1_LINEAR>(); }
HARNESS( h_lin5_L ) { law<5,-1,INTERP1_LINEAR>(); }
HARNESS( h_lin5_0 ) { law<5,0,INTERP1_LINEAR>(); }
HARNESS( h_lin5_1 ) { law<5,1,INTERP1_LINEAR>(); }
HARNESS( h_lin5_2 ) { law<5,2,INTERP1_LINEAR>(); }
HARNESS( h_lin5_3 ) { law<5,3,INTERP1_LINEAR>(); }
HARNESS( h_lin5_4 ) { law<5,4,INTERP1_LINEAR>(); }
HARNESS( h_sine4_L ) { law<4,-1,INTERP1_SINE>(); }
HARNESS( h_sine4_0 ) { law<4,0,INTERP1_SINE>(); }
HARNESS( h_sine4_1 ) { law<4,1,INTERP1_SINE>(); }
HARNESS( h_sine4_2 ) { law<4,2,INTERP1_SINE>(); }
HARNESS( h_sine4_3 ) { law<4,3,INTERP1_SINE>(); }
HARNESS( h_sine5_L ) { law<5,-1,INTERP1_SINE>(); }
HARNESS( h_sine5_0 ) { law<5,0,INTERP1_SINE>(); }
HARNESS( h_sine5_1 ) { law<5,1,INTERP1_SINE>(); }
HARNESS( h_sine5_2 ) { law<5,2,INTERP1_SINE>(); }
HARNESS( h_sine5_3 ) { law<5,3,INTERP1_SINE>(); }
HARNESS( h_sine5_4 ) { law<5,4,INTERP1_SINE>(); }
HARNESS( h_cub4_L ) { law<4,-1,INTERP1_CUBIC>(); }
HARNESS( h_cub4_3 ) { law<4,3,INTERP1_CUBIC>(); }
HARNESS( h_cub5_L ) { law<5,-1,INTERP1_CUBIC>(); }
HARNESS( h_cub5_4 ) { law<5,4,INTERP1_CUBIC>(); }
HARNESS( h_cub4_0 ) { law<4,0,INTERP1_CUBIC>(); }
HARNESS( h_cub4_1 ) { law<4,1,INTERP1_CUBIC>(); }
HARNESS( h_cub4_2 ) { law<4,2,INTERP1_CUBIC>(); }
HARNESS( h_cub5_0 ) { law<5,0,INTERP1_CUBIC>(); }
HARNESS( h_cub5_1 ) { law<5,1,INTERP1_CUBIC>(); }
HARNESS( h_cub5_2 ) { law<5,2,INTERP1_CUBIC>(); }
HARNESS( h_cub5_3 ) { law<5,3,INTERP1_CUBIC>(); }
HARNESS( h_her4_L ) { law<4,-1,INTERP1_HERMITE>(); }
HARNESS( h_her4_0 ) { law<4,0,INTERP1_HERMITE>(); }
HARNESS( h_her4_1 ) { law<4,1,INTERP1_HERMITE>(); }
HARNESS( h_her4_2 ) { law<4,2,INTERP1_HERMITE>(); }
HARNESS( h_her4_3 ) { law<4,3,INTERP1_HERMITE>(); }
HARNESS( h_her5_L ) { law<5,-1,INTERP1_HERMITE>(); }
HARNESS( h_her5_0 ) { law<5,0,INTERP1_HERMITE>(); }
HARNESS( h_her5_1 ) { law<5,1,INTERP1_HERMITE>(); }
HARNESS( h_her5_2 ) { law<5,2,INTERP1_HERMITE>(); }
HARNESS( h_her5_3 ) { law<5,3,INTERP1_HERMITE>(); }
HARNESS( h_her5_4 ) { law<5,4,INTERP1_HERMITE>(); }
HARNESS( h_spl4_L ) { law<4,-1,INTERP1_SPLINE>(); }
HARNESS( h_spl4_0 ) { law<4,0,INTERP1_SPLINE>(); }
HARNESS( h_spl4_1 ) { law<4,1,INTERP1_SPLINE>(); }
HARNESS( h_spl4_2 ) { law<4,2,INTERP1_SPLINE>(); }
HARNESS( h_spl4_3 ) { law<4,3,INTERP1_SPLINE>(); }
HARNESS( h_spl5_L ) { law<5,-1,INTERP1_SPLINE>(); }
HARNESS( h_spl5_0 ) { law<5,0,INTERP1_SPLINE>(); }
HARNESS( h_spl5_1 ) { law<5,1,INTERP1_SPLINE>(); }
HARNESS( h_spl5_2 ) { law<5,2,INTERP1_SPLINE>(); }
HARNESS( h_spl5_3 ) { law<5,3,INTERP1_SPLINE>(); }
HARNESS( h_spl5_4 ) { law<5,4,INTERP1_SPLINE>(); }
HARNESS( h_csp4_L_1 ) { law<4,-1,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp4_L_2 ) { law<4,-1,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp4_L_3 ) { law<4,-1,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp4_0_1 ) { law<4,0,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp4_0_2 ) { law<4,0,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp4_0_3 ) { law<4,0,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp4_1_1 ) { law<4,1,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp4_1_2 ) { law<4,1,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp4_1_3 ) { law<4,1,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp4_2_1 ) { law<4,2,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp4_2_2 ) { law<4,2,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp4_2_3 ) { law<4,2,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp4_3_1 ) { law<4,3,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp4_3_2 ) { law<4,3,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp4_3_3 ) { law<4,3,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp5_L_1 ) { law<5,-1,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp5_L_2 ) { law<5,-1,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp5_L_3 ) { law<5,-1,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp5_0_1 ) { law<5,0,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp5_0_2 ) { law<5,0,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp5_0_3 ) { law<5,0,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp5_1_1 ) { law<5,1,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp5_1_2 ) { law<5,1,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp5_1_3 ) { law<5,1,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp5_2_1 ) { law<5,2,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp5_2_2 ) { law<5,2,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp5_2_3 ) { law<5,2,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp5_3_1 ) { law<5,3,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp5_3_2 ) { law<5,3,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp5_3_3 ) { law<5,3,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
HARNESS( h_csp5_4_1 ) { law<5,4,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
HARNESS( h_csp5_4_2 ) { law<5,4,INTERP1_CONSTRAINED_SPLINE>( 2 ); }
HARNESS( h_csp5_4_3 ) { law<5,4,INTERP1_CONSTRAINED_SPLINE>( 3 ); }
/* --- straight lines are reproduced exactly by the first-order and spline methods, also beyond the table */
template<int N, interp1Method M> static void line( int fixed = 0 )
{
    table<N> t( fixed );
    const float a = vf_nd_f32( "la", 0 ), b = vf_nd_f32( "la", 1 );
    vf_assume( ( a > -10.0f ) && ( a < 10.0f ) && ( b > -10.0f ) && ( b < 10.0f ) && ( ( b > 0.0625f ) || ( b < -0.0625f ) ) );
    for ( int i = 0 ; i < N ; ++i ) { t.y[ i ] = a + b*t.x[ i ]; }
    const float x = vf_nd_f32( "x", 0 ); vf_assume( ( x > -200.0f ) && ( x < 200.0f ) );
    for ( int i = 0 ; i < N ; ++i ) { const float d = x - t.x[ i ]; vf_assume( ( d > 0.0078125f ) || ( d < -0.0078125f ) ); }
    interp1 p( t.x, t.y );
    vf_assert( p.setMethod( M ), "method accepted" );
    vf_near( p.get( x ), a + b*x, 2e-2, "a straight line is reproduced" );
    vf_reach( "end" );
}
HARNESS( h_line_lin ) { line<4,INTERP1_LINEAR>(); }
HARNESS( h_line_her ) { line<4,INTERP1_HERMITE>(); }
HARNESS( h_line_spl ) { line<4,INTERP1_SPLINE>(); }
HARNESS( h_line_csp ) { line<4,INTERP1_CONSTRAINED_SPLINE>( 1 ); }
/* --- the constrained spline does not overshoot: with the slopes proved above the cubic stays between its end values */
HARNESS( h_overshoot )
{
    const float a = vf_nd_f32( "s", 0 ), b = vf_nd_f32( "s", 1 ), t = vf_nd_f32( "s", 2 );
    vf_assume( ( t >= 0.0f ) && ( t <= 1.0f ) && ( a >= 0.0f ) && ( a <= 3.0f ) && ( b >= 0.0f ) && ( b <= 3.0f ) );
    const float o = herm( t, 0.0f, 1.0f, 0.0f, 1.0f, a, b );
    vf_assert( ( o >= -1.0e-4f ) && ( o <= 1.0001f ), "cubic with slopes within three secants stays between its ends" );
    vf_reach( "end" );
}
template<int N> static void bounded( void )
{
    table<N> t( 1 ); t.bumpy();
    for ( int i = 0 ; i < N ; ++i ) {
        const float s = t.s( ( i < ( N - 1 ) ) ? i : N - 2 ), r = csSlope<N>( t, i )/s, q = csSlope<N>( t, i )/t.s( ( i > 0 ) ? i - 1 : 0 );
        vf_assert( ( r >= 0.0f ) && ( r <= 3.0f ) && ( q >= 0.0f ) && ( q <= 3.0f ), "constrained slopes lie within three secants" );
    }
    vf_reach( "end" );
}
HARNESS( h_slopes ) { bounded<4>(); }
/* --- incomplete tables give a NaN, unusable data and methods are refused and change nothing (bit-precise) */
HARNESS( h_refuse )
{
    float x[ 5 ] = { 1.0f, 2.0f, 3.0f, 4.0f, 5.0f }, y[ 5 ], z[ 5 ];
    for ( int i = 0 ; i < 5 ; ++i ) { y[ i ] = vf_nd_f32( "ty", i ); z[ i ] = vf_nd_f32( "tz", i ); }
    const size_t n = vf_nd_u8( "n", 0 ); vf_assume( n <= 5U );
    const bool nx = vf_nd_b( "null", 0 ), ny = vf_nd_b( "null", 1 );
    interp1 p( x, y );
    vf_assert( p.setMethod( INTERP1_PREVIOUS ), "method accepted" );
    const bool ok = p.setData( nx ? nullptr : x, ny ? nullptr : z, n );
    vf_assert( ok == ( !nx && !ny && ( n >= 4U ) ), "data accepted exactly when complete" );
    const float o = p.get( 2.5f ), w = ok ? z[ 1 ] : y[ 1 ];
    vf_assert( ( o == w ) || ( ( o != o ) && ( w != w ) ), "refused data changes nothing" );
    const int m = vf_nd_u8( "m", 0 );
    vf_assume( m >= INTERP1_MAX && m < 16 );
    vf_assert( !p.setMethod( static_cast<interp1Method>( m ) ), "unknown method refused" );
    const float o2 = p.get( 2.5f );
    vf_assert( ( o2 == w ) || ( ( o2 != o2 ) && ( w != w ) ), "a refused method changes nothing" );
    vf_reach( "end" );
}
HARNESS( h_small )
{
    float x[ 3 ] = { 1.0f, 2.0f, 3.0f }, y[ 3 ];
    for ( int i = 0 ; i < 3 ; ++i ) { y[ i ] = vf_nd_f32( "ty", i ); }
    const float v = vf_nd_f32( "x", 0 );
    const size_t n = vf_nd_u8( "n", 0 ); vf_assume( n <= 3U );
    const bool nx = vf_nd_b( "null", 0 ), ny = vf_nd_b( "null", 1 );
    interp1 p( nx ? nullptr : x, ny ? nullptr : y, n );
    for ( int m = 0 ; m < INTERP1_MAX ; ++m ) {
        const size_t need = ( ( INTERP1_CUBIC == m ) || ( INTERP1_SPLINE == m ) || ( INTERP1_CONSTRAINED_SPLINE == m ) ) ? 4U : 2U;
        vf_assert( p.setMethod( static_cast<interp1Method>( m ) ), "method accepted" );
        if ( ( n < need ) || nx || ny ) { const float o = p.get( v ); vf_assert( o != o, "not a number without a usable table" ); }
    }
    vf_reach( "end" );
}
