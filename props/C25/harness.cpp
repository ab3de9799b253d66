/* C25: fixed-point elementary functions */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static const int32_t MARK = -2147483647 - 1, MAX = 2147483647, ONE = 65536, PI = 205887, PI_2 = 102944;
static fp16 mk( int32_t r ) { fp16 f; std::memcpy( &f, &r, sizeof r ); return f; }
static int32_t any( const char *n, int i ) { const int32_t v = (int32_t)vf_nd_u32( n, i ); vf_assume( v != MARK ); return v; }
static int64_t mag( int64_t v ) { return ( v < 0 ) ? -v : v; }
/* values on a grid, rounded to the nearest unit */
static const int32_t SIN[ 64 ] = { 1, -6423, -12785, -19024, -25079, -30893, -36409, -41575, -46341, -50660, -54491, -57797, -60547, -62714, -64277, -65220, -65536, -65220, -64277, -62714, -60547, -57798, -54491, -50660, -46341, -41576, -36410, -30894, -25080, -19024, -12785, -6424, 0, 6424, 12785, 19024, 25080, 30894, 36410, 41576, 46341, 50660, 54491, 57798, 60547, 62714, 64277, 65220, 65536, 65220, 64277, 62714, 60547, 57797, 54491, 50660, 46341, 41575, 36409, 30893, 25079, 19024, 12785, 6423 };
static const int32_t ATN[ 64 ] = { -94794, -94534, -94257, -93961, -93644, -93305, -92940, -92546, -92121, -91659, -91157, -90608, -90007, -89345, -88613, -87799, -86889, -85865, -84705, -83381, -81857, -80087, -78007, -75535, -72558, -68921, -64408, -58724, -51472, -42172, -30386, -16055, 0, 16055, 30386, 42172, 51472, 58724, 64408, 68921, 72558, 75535, 78007, 80087, 81857, 83381, 84705, 85865, 86889, 87799, 88613, 89345, 90007, 90608, 91157, 91659, 92121, 92546, 92940, 93305, 93644, 93961, 94257, 94534 };
static const int32_t AT2[ 64 ] = { -154416, -145116, -133329, -118999, -102944, -86889, -72558, -60771, -163715, -154416, -141479, -124030, -102944, -81857, -64408, -51472, -175502, -167352, -154416, -133329, -102944, -72558, -51472, -38535, -189832, -184801, -175502, -154416, -102944, -51472, -30386, -21086, 205887, 205887, 205887, 205887, 0, 0, 0, 0, 189832, 184801, 175502, 154416, 102944, 51472, 30386, 21086, 175502, 167352, 154416, 133329, 102944, 72558, 51472, 38535, 163715, 154416, 141479, 124030, 102944, 81857, 64408, 51472 };
HARNESS( h_sin )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); const int64_t s = fp16::sin( mk( 6434*( k - 32 ) ) ).raw();
    vf_assert( mag( s - SIN[ k ] ) <= 12, "sine" );
    vf_reach( "end" );
}
HARNESS( h_cos )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); const int64_t s = fp16::cos( mk( 6434*( k - 48 ) ) ).raw();
    vf_assert( mag( s - SIN[ k ] ) <= 12, "cosine" );
    vf_reach( "end" );
}
HARNESS( h_sin_odd )
{
    const int32_t x = 804*(int32_t)vf_nd_u8( "x", 0 );
    vf_assert( fp16::sin( mk( -x ) ).raw() == -fp16::sin( mk( x ) ).raw(), "odd" );
    vf_reach( "end" );
}
HARNESS( h_sin_period )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ), t = (int)( vf_nd_u8( "t", 0 ) & 3 );
    const int64_t s = fp16::sin( mk( 6434*( k - 32 ) + 411775*( t - 2 ) ) ).raw();
    vf_assert( mag( s - SIN[ k ] ) <= 14, "periodic" );
    vf_reach( "end" );
}
HARNESS( h_trig )
{
    const int32_t x = any( "x", 0 ); vf_assume( mag( x ) <= 3*PI );
    fp16 s = fp16::sin( mk( x ) ), c = fp16::cos( mk( x ) );
    vf_assert( c.raw() == fp16::sin( mk( x + PI_2 ) ).raw(), "cosine is the sine a quarter of a turn ahead" );
    vf_assert( fp16::tan( mk( x ) ).raw() == ( s/c ).raw(), "tangent is sine over cosine" );
    vf_reach( "end" );
}
HARNESS( h_atan )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); const int64_t s = fp16::atan( mk( 16384*( k - 32 ) ) ).raw();
    vf_assert( mag( s - ATN[ k ] ) <= 700, "arc tangent" );
    vf_reach( "end" );
}
HARNESS( h_atan2 )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 7 ), j = (int)( vf_nd_u8( "j", 0 ) & 7 ); vf_assume( ( k != 4 ) || ( j != 4 ) );
    const int64_t s = fp16::atan2( mk( 65536*( k - 4 ) ), mk( 65536*( j - 4 ) ) ).raw();
    vf_assert( mag( s - AT2[ 8*k + j ] ) <= 1150, "quadrant and angle" );
    vf_reach( "end" );
}
HARNESS( h_atan_odd )
{
    const int32_t x = any( "x", 0 ); vf_assume( mag( x ) < 4096*ONE );
    if ( 0 != x ) { vf_assert( fp16::atan( mk( -x ) ).raw() == -fp16::atan( mk( x ) ).raw(), "odd" ); } else { vf_assert( mag( fp16::atan( mk( 0 ) ).raw() ) <= 2, "zero" ); }
    vf_reach( "end" );
}
HARNESS( h_asin )
{
    const int32_t x = any( "x", 0 );
    if ( mag( x ) > ONE ) { vf_assert( 0 == fp16::asin( mk( x ) ).raw(), "outside of the domain" ); }
    vf_assert( ( mag( fp16::asin( mk( ONE ) ).raw() - PI_2 ) <= 2 ) && ( mag( fp16::asin( mk( -ONE ) ).raw() + PI_2 ) <= 2 ) && ( mag( fp16::asin( mk( 0 ) ).raw() ) <= 2 ), "ends and middle" );
    vf_assert( ( mag( fp16::acos( mk( ONE ) ).raw() ) <= 2 ) && ( mag( fp16::acos( mk( -ONE ) ).raw() - PI ) <= 3 ) && ( mag( fp16::acos( mk( 0 ) ).raw() - PI_2 ) <= 2 ), "arc cosine" );
    if ( mag( x ) <= ONE ) { vf_assert( fp16::acos( mk( x ) ).raw() == PI_2 - fp16::asin( mk( x ) ).raw(), "complementary" ); }
    vf_reach( "end" );
}
HARNESS( h_exp_ends )
{
    const int32_t x = any( "x", 0 ); vf_assume( ( mag( x ) >= 681391 ) || ( 0 == x ) || ( ONE == x ) );
    const int32_t r = fp16::exp( mk( x ) ).raw();
    vf_assert( r == ( ( 0 == x ) ? ONE : ( ( ONE == x ) ? 178145 : ( ( x > 0 ) ? MAX : 0 ) ) ), "ends of the exponential" );
    vf_reach( "end" );
}
HARNESS( h_log_domain )
{
    const int32_t x = (int32_t)vf_nd_u32( "x", 0 ); vf_assume( x <= 0 );
    vf_assert( fp16::log( mk( x ) ).isOverflow() && fp16::log2( mk( x ) ).isOverflow(), "no logarithm of zero and negative numbers" );
    vf_reach( "end" );
}
HARNESS( h_log2 )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 31 ); vf_assume( k < 31 );
    vf_assert( mag( (int64_t)fp16::log2( mk( 1 << k ) ).raw() - 65536*( k - 16 ) ) <= 1, "logarithm of powers of two" );
    vf_reach( "end" );
}
HARNESS( h_hyper )
{
    const int32_t x = any( "x", 0 ); vf_assume( mag( x ) <= 655360 );
    const int64_t p = fp16::exp( mk( x ) ).raw(), n = fp16::exp( mk( -x ) ).raw();
    vf_assert( mag( 2*(int64_t)fp16::cosh( mk( x ) ).raw() - ( p + n ) ) <= 2, "cosine" );
    vf_assert( mag( 2*(int64_t)fp16::sinh( mk( x ) ).raw() - ( p - n ) ) <= 2, "sine" );
    vf_reach( "end" );
}
HARNESS( h_hyper_ends )
{
    const int32_t x = any( "x", 0 ); vf_assume( ( mag( x ) >= 681391 ) || ( 0 == x ) );
    vf_assert( ( fp16::cosh( mk( x ) ).raw() == ( ( 0 == x ) ? ONE : MAX ) ) && ( fp16::sinh( mk( x ) ).raw() == ( ( 0 == x ) ? 0 : ( ( x > 0 ) ? MAX : -MAX ) ) ), "zero and saturation" );
    vf_reach( "end" );
}
HARNESS( h_tanh )
{
    const int32_t x = any( "x", 0 ), t = fp16::tanh( mk( x ) ).raw();
    vf_assert( ( mag( t ) <= ONE ) && ( ( 0 == t ) || ( ( t > 0 ) == ( x > 0 ) ) ) && ( fp16::tanh( mk( -x ) ).raw() == -t ), "odd, between -1 and 1" );
    if ( mag( x ) > 425984 ) { vf_assert( mag( t ) == ONE, "saturated" ); }
    if ( ( x > 0 ) && ( x <= 425984 ) ) { fp16 p = fp16::exp( mk( x ) ), n = fp16::exp( mk( -x ) ), a = p - n, b = p + n; vf_assert( t == ( a/b ).raw(), "quotient of the hyperbolic functions" ); }
    vf_reach( "end" );
}
HARNESS( h_powi )
{
    const int32_t x = (int32_t)vf_nd_u8( "x", 0 ) - 128; const int n = (int)( vf_nd_u8( "n", 0 ) & 3 );
    int64_t e = 1; for ( int i = 0 ; i < 3 ; ++i ) { if ( i < n ) { e *= x; } }
    const int32_t r = fp16::pow( mk( x*ONE ), mk( n*ONE ) ).raw();
    if ( ( e < 32768 ) && ( e >= -32767 ) && ( ( 0 != x ) || ( 0 != n ) ) ) { vf_assert( r == e*ONE, "whole powers of integers" ); }
    if ( mag( e ) > 32768 ) { vf_assert( MARK == r, "overflow" ); }
    vf_reach( "end" );
}
HARNESS( h_pow )
{
    const int32_t x = any( "x", 0 ), y = any( "y", 0 ); vf_assume( ( x > 0 ) && ( mag( y ) <= 16*ONE ) );
    if ( ( y <= 0 ) || ( 0 != ( y & 65535 ) ) ) {
        const int32_t p = fp16::pow( mk( x ), mk( y ) ).raw(), m = fp16::pow( mk( -x ), mk( y ) ).raw();
        if ( 0 == y ) { vf_assert( p == ONE, "zeroth power" ); }
        vf_assert( ( p >= 0 ) || ( MARK == p ), "powers of positive numbers" );
        if ( 0 != ( y & 65535 ) ) { vf_assert( MARK == m, "fractional powers of negative numbers" ); }
        else if ( 0 == ( y & 65536 ) ) { vf_assert( m == p, "even powers" ); }
        else if ( MARK != p ) { vf_assert( m == -p, "odd powers" ); }
    }
    vf_reach( "end" );
}
