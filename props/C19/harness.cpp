/* C19: classification, sign, rounding, decomposition and neighbours of binary32 values: bit-exact for every pattern */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static uint32_t bits( float f ) { uint32_t u; memcpy( &u, &f, 4 ); return u; }
static float any( int i = 0 ) { const uint32_t u = vf_nd_u32( "u", i ); float f; memcpy( &f, &u, 4 ); return f; }
static bool nan32( uint32_t u ) { return ( u & 0x7FFFFFFFu ) > 0x7F800000u; }
static bool same( float a, float b ) { const uint32_t x = bits( a ), y = bits( b ); return ( x == y ) || ( nan32( x ) && nan32( y ) ); }
HARNESS( h_classify )
{
    const float x = any(); const uint32_t m = bits( x ) & 0x7FFFFFFFu, e = m >> 23, f = m & 0x7FFFFFu;
    const ffmath::classification c = ffmath::classify( x );
    vf_assert( ( c == ffmath::classification::FFP_ZERO ) == ( ( 0u == e ) && ( 0u == f ) ), "zero" );
    vf_assert( ( c == ffmath::classification::FFP_SUBNORMAL ) == ( ( 0u == e ) && ( 0u != f ) ), "subnormal" );
    vf_assert( ( c == ffmath::classification::FFP_NORMAL ) == ( ( e > 0u ) && ( e < 255u ) ), "normal" );
    vf_assert( ( c == ffmath::classification::FFP_INFINITE ) == ( ( 255u == e ) && ( 0u == f ) ), "infinite" );
    vf_assert( ( c == ffmath::classification::FFP_NAN ) == ( ( 255u == e ) && ( 0u != f ) ), "not a number" );
    vf_assert( ffmath::isNan( x ) == ( ( 255u == e ) && ( 0u != f ) ), "isNan" );
    vf_assert( ffmath::isInf( x ) == ( ( 255u == e ) && ( 0u == f ) ), "isInf" );
    vf_assert( ffmath::isFinite( x ) == ( e < 255u ), "isFinite" );
    vf_assert( ffmath::isNormal( x ) == ( ( e > 0u ) && ( e < 255u ) ), "isNormal" );
    vf_assert( bits( ffmath::getInf() ) == 0x7F800000u, "infinity constant" );
    const float n = ffmath::getNan(); vf_assert( n != n, "not-a-number constant" );
    vf_reach( "end" );
}
HARNESS( h_sign )
{
    const float x = any( 0 ), y = any( 1 );
    vf_assert( bits( ffmath::copysign( x, y ) ) == ( ( bits( x ) & 0x7FFFFFFFu ) | ( bits( y ) & 0x80000000u ) ), "copysign" );
    vf_assert( bits( ffmath::absf( x ) ) == ( bits( x ) & 0x7FFFFFFFu ), "absolute value" );
    const float s = ffmath::sign( x );
    if ( nan32( bits( x ) ) ) { vf_assert( s != s, "sign of not-a-number" ); }
    else if ( 0u == ( bits( x ) & 0x7FFFFFFFu ) ) { vf_assert( 0.0f == s, "sign of zero" ); }
    else { vf_assert( s == ( ( bits( x ) & 0x80000000u ) ? -1.0f : 1.0f ), "sign" ); }
    vf_reach( "end" );
}
HARNESS( h_floor ) { const float x = any(); vf_assert( same( ffmath::floor( x ), __builtin_floorf( x ) ), "largest integer not above" ); vf_reach( "end" ); }
HARNESS( h_ceil ) { const float x = any(); vf_assert( same( ffmath::ceil( x ), __builtin_ceilf( x ) ), "smallest integer not below" ); vf_reach( "end" ); }
HARNESS( h_trunc ) { const float x = any(); vf_assert( same( ffmath::trunc( x ), __builtin_truncf( x ) ), "integer towards zero" ); vf_reach( "end" ); }
HARNESS( h_round ) { const float x = any(); vf_assert( same( ffmath::rounding( x ), __builtin_roundf( x ) ), "nearest integer, halves away from zero" ); vf_reach( "end" ); }
HARNESS( h_frac )
{
    const float x = any(); vf_assume( ( bits( x ) & 0x7FFFFFFFu ) < 0x7F800000u );
    const float f = ffmath::frac( x ), t = __builtin_truncf( x );
    vf_assert( ( f == x - t ) && ( f < 1.0f ) && ( f > -1.0f ) && ( ( 0.0f == f ) || ( ( f < 0.0f ) == ( x < 0.0f ) ) ), "fractional part" );
    vf_assert( ( f + t ) == x, "integer and fractional parts add up" );
    vf_reach( "end" );
}
/* position on the line of all values */
static int64_t place( float f ) { const uint32_t u = bits( f ); const int64_t m = u & 0x7FFFFFFFu; return ( u & 0x80000000u ) ? -m : m; }
HARNESS( h_next )
{
    const float x = any( 0 ), y = any( 1 ), n = ffmath::nextAfter( x, y );
    if ( nan32( bits( x ) ) || nan32( bits( y ) ) ) { vf_assert( n != n, "not a number" ); }
    else {
        const int64_t a = place( x ), b = place( y );
        vf_assert( n == n, "a number" );
        if ( a == b ) { vf_assert( bits( n ) == bits( y ), "equal values yield the second" ); }
        else { vf_assert( place( n ) == ( ( b > a ) ? a + 1 : a - 1 ), "exactly one step in the direction of the second" ); }
    }
    vf_reach( "end" );
}
static double pow2( int e ) { const uint64_t u = (uint64_t)( 1023 + e ) << 52; double d; memcpy( &d, &u, 8 ); return d; }
HARNESS( h_rexp )
{
    const float x = any(); vf_assume( ( bits( x ) & 0x7FFFFFFFu ) < 0x7F800000u );
    int32_t e[ 2 ] = { 12345, 777 };
    const float f = ffmath::rexp( x, e );
    if ( 0u == ( bits( x ) & 0x7FFFFFFFu ) ) { vf_assert( ( 0.0f == f ) && ( 0 == e[ 0 ] ), "zero has fraction and exponent zero" ); }
    else {
        vf_assert( ( ( f >= 0.5f ) && ( f < 1.0f ) ) || ( ( f <= -0.5f ) && ( f > -1.0f ) ), "fraction in its range" );
        vf_assert( ( e[ 0 ] >= -148 ) && ( e[ 0 ] <= 128 ), "exponent in its range" );
        if ( ( e[ 0 ] >= -148 ) && ( e[ 0 ] <= 128 ) ) { vf_assert( (double)f*pow2( e[ 0 ] ) == (double)x, "fraction times power of two is the value" ); }
    }
    vf_assert( 777 == e[ 1 ], "only the exponent is written" );
    vf_reach( "end" );
}
static void ldexp_range( int lo, int hi )
{
    const float x = any();
    const int n = (int)vf_nd_u32( "n", 0 );
    vf_assume( ( n >= lo ) && ( n <= hi ) );
    const float r = ffmath::ldexp( x, n );
    const int k = ( n > 400 ) ? 400 : ( ( n < -400 ) ? -400 : n );
    vf_assert( same( r, (float)( (double)x*pow2( k ) ) ), "value times power of two, rounded once, infinite on overflow" );
    vf_reach( "end" );
}
HARNESS( h_ldexp_mid ) { ldexp_range( -126, 127 ); }
HARNESS( h_ldexp_up ) { ldexp_range( 128, 2147483647 ); }
HARNESS( h_ldexp_dn ) { ldexp_range( -300, -127 ); }
HARNESS( h_ldexp_min ) { ldexp_range( -2147483647 - 1, -301 ); }
HARNESS( h_minmax )
{
    const float a = any( 0 ), b = any( 1 ), c = any( 2 );
    vf_assume( ( a == a ) && ( b == b ) && ( c == c ) );
    const float m = ffmath::Max( a, b, c ), n = ffmath::Min( a, b, c );
    vf_assert( ( m >= a ) && ( m >= b ) && ( m >= c ) && ( ( m == a ) || ( m == b ) || ( m == c ) ), "maximum" );
    vf_assert( ( n <= a ) && ( n <= b ) && ( n <= c ) && ( ( n == a ) || ( n == b ) || ( n == c ) ), "minimum" );
    vf_assert( ( ffmath::Max( a, b ) == ( ( a > b ) ? a : b ) ) && ( ffmath::Min( a, b ) == ( ( a < b ) ? a : b ) ) && ( ffmath::Max( a ) == a ), "extremes of two and one" );
    vf_reach( "end" );
}
