/* C20: range, interpolation, modular and geometric helpers */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static uint32_t bits( float f ) { uint32_t u; memcpy( &u, &f, 4 ); return u; }
static float any( int i ) { const uint32_t u = vf_nd_u32( "u", i ); float f; memcpy( &f, &u, 4 ); return f; }
static bool fin( float x ) { return ( bits( x ) & 0x7FFFFFFFu ) < 0x7F800000u; }
static float mag( float x ) { return ( x < 0.0f ) ? -x : x; }
/* --- bit-precise */
HARNESS( h_equal )
{
    const float a = any( 0 ), b = any( 1 ), t = any( 2 );
    const float d = a - b;
    vf_assert( ffmath::isEqual( a, b, t ) == ( ( d == d ) && ( t == t ) && ( mag( d ) <= mag( t ) ) ), "equal exactly when the distance is within the tolerance" );
    if ( fin( a ) ) { vf_assert( ffmath::isEqual( a, a ), "a finite value equals itself" ); }
    vf_reach( "end" );
}
HARNESS( h_coerce )
{
    const float x = any( 0 ), lo = any( 1 ), hi = any( 2 );
    vf_assume( ( lo <= hi ) );
    float v[ 2 ] = { x, 5.0f };
    const bool in = ffmath::inRangeCoerce( v[ 0 ], lo, hi );
    vf_assert( in == ( ( x >= lo ) && ( x <= hi ) ), "true exactly when the value is in range" );
    vf_assert( ( v[ 0 ] >= lo ) && ( v[ 0 ] <= hi ), "the coerced value is in range" );
    if ( in ) { vf_assert( bits( v[ 0 ] ) == bits( x ), "a value in range is not changed" ); }
    else if ( x > hi ) { vf_assert( v[ 0 ] == hi, "a larger value becomes the upper limit" ); }
    else { vf_assert( v[ 0 ] == lo, "a smaller value or not-a-number becomes the lower limit" ); }
    vf_reach( "end" );
}
HARNESS( h_midpoint )
{
    const float a = any( 0 ), b = any( 1 ); vf_assume( fin( a ) && fin( b ) );
    const float m = ffmath::midpoint( a, b );
    vf_assert( fin( m ), "the midpoint of finite values never overflows" );
    vf_assert( ( ( m >= a ) && ( m <= b ) ) || ( ( m <= a ) && ( m >= b ) ), "the midpoint lies between both values" );
    vf_reach( "end" );
}
static void lerp_at( int which )
{
    const float a = any( 0 ), b = any( 1 ); vf_assume( fin( a ) && fin( b ) );
    if ( 0 == which ) { vf_assert( ffmath::lerp( a, b, 0.0f ) == a, "the first value at 0" ); }
    else if ( 1 == which ) { vf_assert( ffmath::lerp( a, b, 1.0f ) == b, "the second value at 1" ); }
    else {
        const float t = any( 2 ); vf_assume( fin( t ) );
        if ( 2 == which ) { vf_assert( ffmath::lerp( a, a, t ) == a, "equal ends" ); }
        else { vf_assume( ( t >= 0.0f ) && ( t <= 1.0f ) ); vf_assert( fin( ffmath::lerp( a, b, t ) ), "finite inside" ); }
    }
    vf_reach( "end" );
}
HARNESS( h_lerp0 ) { lerp_at( 0 ); }
HARNESS( h_lerp1 ) { lerp_at( 1 ); }
HARNESS( h_lerpe ) { lerp_at( 2 ); }
HARNESS( h_lerpf ) { lerp_at( 3 ); }
HARNESS( h_hypot_cls )
{
    const float x = any( 0 ), y = any( 1 );
    const uint32_t u = bits( x ) & 0x7FFFFFFFu, v = bits( y ) & 0x7FFFFFFFu;
    const float h = ffmath::hypot( x, y );
    if ( ( 0x7F800000u == u ) || ( 0x7F800000u == v ) ) { vf_assert( bits( h ) == 0x7F800000u, "infinite when one side is infinite" ); }
    else if ( ( u > 0x7F800000u ) || ( v > 0x7F800000u ) ) { vf_assert( h != h, "not a number when one side is not a number" ); }
    vf_reach( "end" );
}
HARNESS( h_hypot_sym )
{
    const float x = any( 0 ), y = any( 1 ); vf_assume( fin( x ) && fin( y ) );
    const float h = ffmath::hypot( x, y ), g = ffmath::hypot( y, x ), k = ffmath::hypot( -x, y );
    vf_assert( ( bits( h ) == bits( g ) ) || ( ( h != h ) && ( g != g ) ), "the order of the sides does not matter" );
    vf_assert( ( bits( h ) == bits( k ) ) || ( ( h != h ) && ( k != k ) ), "the sign of the sides does not matter" );
    vf_reach( "end" );
}
HARNESS( h_hypot_fin )
{
    const float x = any( 0 ), y = any( 1 );
    vf_assume( fin( x ) && fin( y ) && ( mag( x ) <= 1.0e38f ) && ( mag( y ) <= 1.0e38f ) && ( ( mag( x ) > 1.0e-30f ) || ( mag( y ) > 1.0e-30f ) ) );
    const float h = ffmath::hypot( x, y ), s = ( mag( x ) > mag( y ) ) ? mag( x ) : mag( y );
    vf_assert( fin( h ) && ( h >= 0.5f*s ) && ( h <= 3.0f*s ), "no overflow nor underflow in between" );
    vf_reach( "end" );
}
HARNESS( h_modz )
{
    const float x = any( 0 ); vf_assume( fin( x ) );
    const float z = vf_nd_b( "neg", 0 ) ? -0.0f : 0.0f;
    vf_assert( ffmath::mod( x, z ) == x, "modulo zero is the dividend" );
    const float r = ffmath::rem( x, z ); vf_assert( r != r, "remainder by zero is not a number" );
    const float y = any( 1 ); vf_assume( fin( y ) && ( 0.0f != y ) );
    vf_assert( ( 0.0f == ffmath::rem( 0.0f, y ) ) && ( 0.0f == ffmath::mod( 0.0f, y ) ), "zero has remainder zero" );
    vf_reach( "end" );
}
/* whole turns: the number of turns is a power of two so that products are exact and the queries small */
static void wrapz( int which )
{
    const int n = vf_nd_u8( "k", 0 ); vf_assume( n < 6 );
    const float k = (float)( 1 << n );
    const float p = 360.0f*k, q = 360.0f*k - 180.0f;
    if ( 0 == which ) { vf_assert( ( 360.0f == ffmath::wrapTo360( p ) ) && ( 0.0f == ffmath::wrapTo360( -p ) ) && ( 0.0f == ffmath::wrapTo360( 0.0f ) ), "multiples of a turn" ); }
    else if ( 1 == which ) { vf_assert( ( 180.0f == ffmath::wrapTo180( q ) ) && ( -180.0f == ffmath::wrapTo180( -q ) ) && ( 0.0f == ffmath::wrapTo180( p ) ) && ( 0.0f == ffmath::wrapTo180( -p ) ), "multiples of half a turn" ); }
    else { vf_assert( ( ffmath::FFP_2PI == ffmath::wrapTo2Pi( ffmath::FFP_2PI ) ) && ( 0.0f == ffmath::wrapTo2Pi( -ffmath::FFP_2PI ) ) && ( ffmath::FFP_PI == ffmath::wrapToPi( ffmath::FFP_PI ) ) && ( -ffmath::FFP_PI == ffmath::wrapToPi( -ffmath::FFP_PI ) ), "turns in radians" ); }
    vf_reach( "end" );
}
HARNESS( h_wrapz0 ) { wrapz( 0 ); }
HARNESS( h_wrapz1 ) { wrapz( 1 ); }
HARNESS( h_wrapz2 ) { wrapz( 2 ); }
static void wrapr( int which )
{
    const float x = any( 0 ); vf_assume( fin( x ) && ( mag( x ) <= 1.0e5f ) );
    if ( 0 == which ) { const float y = ffmath::wrapTo360( x ); vf_assert( ( y >= 0.0f ) && ( y <= 360.0f ), "within a turn" ); }
    else if ( 1 == which ) { const float y = ffmath::wrapTo180( x ); vf_assert( ( y >= -180.0f ) && ( y <= 180.0f ), "within half a turn" ); }
    else if ( 2 == which ) { const float y = ffmath::wrapTo2Pi( x ); vf_assert( ( y >= 0.0f ) && ( y <= ffmath::FFP_2PI ), "within a turn" ); }
    else { const float y = ffmath::wrapToPi( x ); vf_assert( ( y >= -ffmath::FFP_PI ) && ( y <= ffmath::FFP_PI ), "within half a turn" ); }
    vf_reach( "end" );
}
HARNESS( h_wrapr0 ) { wrapr( 0 ); }
HARNESS( h_wrapr1 ) { wrapr( 1 ); }
HARNESS( h_wrapr2 ) { wrapr( 2 ); }
HARNESS( h_wrapr3 ) { wrapr( 3 ); }
/* --- exact real arithmetic */
static float in( const char *n, int i, float lo, float hi ) { const float v = vf_nd_f32( n, i ); vf_assume( ( v > lo ) && ( v < hi ) ); return v; }
HARNESS( h_map )
{
    const float x = in( "x", 0, -100.0f, 100.0f ), a = in( "x", 1, -100.0f, 100.0f ), b = in( "x", 2, -100.0f, 100.0f ), c = in( "x", 3, -100.0f, 100.0f ), d = in( "x", 4, -100.0f, 100.0f );
    vf_assume( ( ( b - a ) > 0.0625f ) || ( ( a - b ) > 0.0625f ) );
    vf_near( ffmath::normalize( x, a, b ), ( x - a )/( b - a ), 1e-2, "normalised position" );
    vf_near( ffmath::map( x, a, b, c, d ), c + ( d - c )*( x - a )/( b - a ), 2e-2, "value mapped between the ranges" );
    vf_near( ffmath::map( a, a, b, c, d ), c, 1e-2, "lower end maps to lower end" );
    vf_near( ffmath::map( b, a, b, c, d ), d, 1e-2, "upper end maps to upper end" );
    vf_reach( "end" );
}
HARNESS( h_lerpr )
{
    const float a = in( "x", 0, -100.0f, 100.0f ), b = in( "x", 1, -100.0f, 100.0f ), t = in( "x", 2, -10.0f, 10.0f );
    vf_near( ffmath::lerp( a, b, t ), a + t*( b - a ), 1e-2, "linear interpolation and extrapolation" );
    vf_reach( "end" );
}
HARNESS( h_midr )
{
    const float a = in( "x", 0, -100.0f, 100.0f ), b = in( "x", 1, -100.0f, 100.0f );
    vf_near( ffmath::midpoint( a, b ), 0.5f*( a + b ), 1e-3, "half the sum" );
    vf_reach( "end" );
}
/* the largest values, scaled so that the tolerance is relative */
HARNESS( h_midl )
{
    const float a = in( "x", 0, -3.4e38f, 3.4e38f ), b = in( "x", 1, -3.4e38f, 3.4e38f );
    vf_near( ffmath::midpoint( a, b )*1e-37f, 0.5f*( a*1e-37f + b*1e-37f ), 1e-3, "half the sum" );
    vf_reach( "end" );
}
HARNESS( h_lerpm )
{
    const float a = in( "x", 0, -100.0f, 100.0f ), b = in( "x", 1, -100.0f, 100.0f ), s = in( "x", 2, -10.0f, 10.0f ), t = in( "x", 3, -10.0f, 10.0f );
    vf_assume( ( s < t ) && ( a < b ) );
    vf_assert( ffmath::lerp( a, b, s ) <= ffmath::lerp( a, b, t ), "monotone in the parameter" );
    vf_reach( "end" );
}
HARNESS( h_circle )
{
    const float x = in( "x", 0, -100.0f, 100.0f ), y = in( "x", 1, -100.0f, 100.0f ), cx = in( "x", 2, -100.0f, 100.0f ), cy = in( "x", 3, -100.0f, 100.0f ), r = in( "x", 4, 0.0f, 100.0f );
    const float d = ( x - cx )*( x - cx ) + ( y - cy )*( y - cy ), e = r*r;
    vf_assume( ( d > e + 0.5f ) || ( d < e - 0.5f ) );
    vf_assert( ffmath::inCircle( x, y, cx, cy, r ) == ( d < e ), "inside exactly when nearer than the radius" );
    vf_reach( "end" );
}
HARNESS( h_mod )
{
    const float x = in( "x", 0, -100.0f, 100.0f ), y = in( "x", 1, -100.0f, 100.0f );
    vf_assume( ( y > 0.0625f ) || ( y < -0.0625f ) );
    const float m = ffmath::mod( x, y ), q = ffmath::floor( x/y );
    vf_assert( ( ( y > 0.0f ) && ( m >= 0.0f ) && ( m < y ) ) || ( ( y < 0.0f ) && ( m <= 0.0f ) && ( m > y ) ), "the modulus has the sign of the divisor and is smaller" );
    vf_near( m, x - y*q, 1e-2, "the modulus is what exceeds the floored quotient" );
    const float r = ffmath::rem( x, y ), p = ffmath::trunc( x/y );
    vf_near( r, x - y*p, 1e-2, "the remainder is what exceeds the truncated quotient" );
    vf_reach( "end" );
}
static bool tri( float x, float y, const float *px, const float *py, int a, int b, int c, float eps, bool &off )
{
    const float d0 = ( px[ b ] - px[ a ] )*( y - py[ a ] ) - ( py[ b ] - py[ a ] )*( x - px[ a ] );
    const float d1 = ( px[ c ] - px[ b ] )*( y - py[ b ] ) - ( py[ c ] - py[ b ] )*( x - px[ b ] );
    const float d2 = ( px[ a ] - px[ c ] )*( y - py[ c ] ) - ( py[ a ] - py[ c ] )*( x - px[ c ] );
    off = ( ( d0 > eps ) || ( d0 < -eps ) ) && ( ( d1 > eps ) || ( d1 < -eps ) ) && ( ( d2 > eps ) || ( d2 < -eps ) );
    return ( ( d0 > 0.0f ) && ( d1 > 0.0f ) && ( d2 > 0.0f ) ) || ( ( d0 < 0.0f ) && ( d1 < 0.0f ) && ( d2 < 0.0f ) );
}
/* every triangle with one fixed side and every point off its edges */
static void triangle( float ax, float ay, float bx, float by )
{
    float px[ 3 ] = { ax, bx, 0.0f }, py[ 3 ] = { ay, by, 0.0f };
    px[ 2 ] = in( "x", 2, -50.0f, 50.0f ); py[ 2 ] = in( "x", 3, -50.0f, 50.0f );
    const float x = in( "x", 0, -60.0f, 60.0f ), y = in( "x", 1, -60.0f, 60.0f );
    bool off; const bool want = tri( x, y, px, py, 0, 1, 2, 0.125f, off );
    vf_assume( off );
    vf_assert( ffmath::inPolygon( x, y, px, py, 3U ) == want, "inside a triangle exactly when on the same side of its three edges" );
    vf_reach( "end" );
}
HARNESS( h_tri1 ) { triangle( 0.0f, 0.0f, 4.0f, 1.0f ); }
HARNESS( h_tri2 ) { triangle( -3.0f, 5.0f, 2.0f, -7.0f ); }
HARNESS( h_tri3 ) { triangle( 1.0f, -2.0f, 1.0f, 6.0f ); }
HARNESS( h_tri4 ) { triangle( 5.0f, 3.0f, -5.0f, 3.0f ); }
/* fixed polygons, every point: union of triangles (the second is concave) */
static void poly4( const float *px, const float *py, int a, int b, int c, int d, bool concave )
{
    const float x = in( "x", 0, -20.0f, 20.0f ), y = in( "x", 1, -20.0f, 20.0f );
    bool o1, o2; const bool t1 = tri( x, y, px, py, a, b, c, 0.125f, o1 ), t2 = tri( x, y, px, py, a, c, d, 0.125f, o2 );
    vf_assume( o1 && o2 ); (void)concave;
    vf_assert( ffmath::inPolygon( x, y, px, py, 4U ) == ( t1 || t2 ), "inside a polygon exactly when inside one of the triangles that make it up" );
    vf_reach( "end" );
}
HARNESS( h_quad ) { const float px[ 4 ] = { 0.0f, 6.0f, 7.0f, 1.0f }, py[ 4 ] = { 0.0f, -1.0f, 5.0f, 4.0f }; poly4( px, py, 0, 1, 2, 3, false ); }
HARNESS( h_dart ) { const float px[ 4 ] = { 0.0f, 8.0f, 3.0f, 9.0f }, py[ 4 ] = { 0.0f, -5.0f, 1.0f, 7.0f }; poly4( px, py, 0, 1, 2, 3, true ); }
HARNESS( h_square ) { const float px[ 4 ] = { -2.0f, 5.0f, 5.0f, -2.0f }, py[ 4 ] = { -3.0f, -3.0f, 4.0f, 4.0f }; poly4( px, py, 0, 1, 2, 3, false ); }
HARNESS( h_outside )
{
    float px[ 4 ], py[ 4 ]; bool above = true, below = true, left = true, right = true;
    const float x = in( "x", 0, -60.0f, 60.0f ), y = in( "x", 1, -60.0f, 60.0f );
    for ( int i = 0 ; i < 4 ; ++i ) {
        px[ i ] = in( "px", i, -50.0f, 50.0f ); py[ i ] = in( "py", i, -50.0f, 50.0f );
        above = above && ( y > py[ i ] ); below = below && ( y < py[ i ] ); left = left && ( x < px[ i ] ); right = right && ( x > px[ i ] );
    }
    vf_assume( above || below || left || right );
    vf_assert( !ffmath::inPolygon( x, y, px, py, 4U ), "a point beyond every corner is outside" );
    vf_reach( "end" );
}
