/* C06: fixed-point square root, angle wrapping and text */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static const int32_t MARK = -2147483647 - 1;
static fp16 mk( int32_t r ) { fp16 f; std::memcpy( &f, &r, sizeof r ); return f; }
static int32_t any( const char *n, int i ) { const int32_t v = (int32_t)vf_nd_u32( n, i ); vf_assume( v != MARK ); return v; }
static int64_t mag( int64_t v ) { return ( v < 0 ) ? -v : v; }
static void root( int32_t x )
{
    const uint64_t r = (uint64_t)(int64_t)fp16::sqrt( mk( x ) ).raw(), N = (uint64_t)x << 18;
    vf_assert( ( r > 0 ) && ( r < 16777216 ) && ( ( 2*r - 1 )*( 2*r - 1 ) <= N ) && ( N < ( 2*r + 1 )*( 2*r + 1 ) ), "nearest to the square root" );
}
/* arguments between consecutive powers of four */
static void roots( int32_t x, int lo, int hi )
{
    for ( int g = lo ; g < hi ; ++g ) { if ( ( x >= (int32_t)( 1 << ( 2*g ) ) ) && ( ( 15 == g ) || ( x < (int32_t)( 1 << ( 2*( g & 7 ) + 2*( g & 8 ) + 2 ) ) ) ) ) { root( x ); } }
    vf_reach( "end" );
}
HARNESS( h_sqrt_domain )
{
    const int32_t x = (int32_t)vf_nd_u32( "x", 0 ); vf_assume( x < 0 );
    vf_assert( fp16::sqrt( mk( x ) ).isOverflow() && ( 0 == fp16::sqrt( mk( 0 ) ).raw() ), "zero and negative numbers" );
    vf_reach( "end" );
}
HARNESS( h_sqrt_a ) { roots( (int32_t)vf_nd_u8( "x", 0 ), 0, 4 ); }
HARNESS( h_sqrt_b ) { roots( (int32_t)vf_nd_u16( "x", 0 ), 4, 8 ); }
HARNESS( h_sqrt_c ) { roots( (int32_t)vf_nd_u8( "x", 0 ) << 16, 8, 12 ); }
HARNESS( h_sqrt_d ) { roots( ( (int32_t)vf_nd_u8( "x", 0 ) & 127 ) << 24, 12, 16 ); }
HARNESS( h_sqrt_e ) { roots( 2147483647 - (int32_t)vf_nd_u8( "x", 0 ), 15, 16 ); }
HARNESS( h_wrap180 )
{
    const int32_t x = any( "x", 0 ); const int64_t T = 23592960; vf_assume( ( x <= 11796480*21 ) && ( x >= -11796480*21 ) );
    const int64_t r = fp16::wrapTo180( mk( x ) ).raw();
    vf_assert( ( mag( r ) <= 11796480 ) && ( 0 == ( (int64_t)x - r )%T ), "same angle within half a turn" );
    if ( mag( x ) <= 11796480 ) { vf_assert( r == x, "angles of the interval stay" ); }
    vf_reach( "end" );
}
HARNESS( h_wrappi )
{
    const int32_t x = any( "x", 0 ); const int64_t T = 411775; vf_assume( ( x <= 205887*21 ) && ( x >= -205887*21 ) );
    const int64_t r = fp16::wrapToPi( mk( x ) ).raw();
    vf_assert( ( mag( r ) <= 205888 ) && ( 0 == ( (int64_t)x - r )%T ), "same angle within half a turn" );
    if ( mag( x ) <= 205887 ) { vf_assert( r == x, "angles of the interval stay" ); }
    vf_reach( "end" );
}
static void degrees( int32_t x )
{
    const int64_t d = fp16::radToDeg( mk( x ) ).raw();
    /* 180/pi = 57.295778 */
    const int64_t p = (int64_t)x*3754936, e = ( p + 32768 - ( ( p < 0 ) ? 1 : 0 ) ) >> 16;
    vf_assert( ( d == e ) || ( d == e + 1 ) || ( d == e - 1 ), "degrees" );
    vf_reach( "end" );
}
HARNESS( h_degrees ) { const int32_t x = (int32_t)vf_nd_u16( "x", 0 ) - 32768; degrees( x*6 ); }
HARNESS( h_degrees_all ) { const int32_t x = any( "x", 0 ); vf_assume( mag( x ) <= 205887 ); degrees( x ); }
HARNESS( h_radians )
{
    const int32_t x = any( "x", 0 ); vf_assume( mag( x ) <= 11796480 );
    const int64_t r = fp16::degToRad( mk( x ) ).raw();
    /* pi/180 = 0.0174533, known to one part in 4000 */
    vf_assert( mag( r*65536*16 - (int64_t)x*18301 ) <= 64*65536*16, "radians" );
    vf_reach( "end" );
}
/* text: optional sign, integer without leading zeros, point, the requested digits */
static void text( int32_t x, int dec, bool value = true )
{
    char s[ 24 ]; for ( int i = 0 ; i < 24 ; ++i ) { s[ i ] = '#'; }
    const int d = ( dec > 5 ) ? 5 : ( ( dec < 0 ) ? 0 : dec );
    vf_assert( fp16::toASCII( mk( x ), s, dec ) == s, "returns its buffer" );
    int i = 0; bool ok = true; int64_t v = 0, sc = 1;
    if ( x < 0 ) { ok = ( '-' == s[ 0 ] ); i = 1; }
    const int first = i; int n = 0;
    for ( int k = 0 ; k < 5 ; ++k ) { if ( ( s[ i ] >= '0' ) && ( s[ i ] <= '9' ) ) { v = v*10 + ( s[ i ] - '0' ); ++i; ++n; } else { break; } }
    ok = ok && ( n > 0 ) && ( ( 1 == n ) || ( '0' != s[ first ] ) );
    if ( d > 0 ) { ok = ok && ( '.' == s[ i ] ); ++i; for ( int k = 0 ; k < d ; ++k ) { ok = ok && ( s[ i ] >= '0' ) && ( s[ i ] <= '9' ); v = v*10 + ( s[ i ] - '0' ); sc *= 10; ++i; } }
    ok = ok && ( '\0' == s[ i ] ) && ( '#' == s[ i + 1 ] );
    vf_assert( ok, "format" );
    if ( value ) { vf_assert( mag( v*65536 - mag( x )*sc ) <= 32768, "nearest decimal" ); }
    vf_reach( "end" );
}
HARNESS( h_text0 ) { text( any( "x", 0 ), 0 ); }
HARNESS( h_text2 ) { text( any( "x", 0 ), 2 ); }
HARNESS( h_text1 ) { text( any( "x", 0 ), 1 ); }
HARNESS( h_text5 ) { text( any( "x", 0 ), 5, false ); }
HARNESS( h_text5a ) { text( (int32_t)vf_nd_u16( "x", 0 ), 5 ); }
HARNESS( h_text5b ) { text( -( ( 20406 << 16 ) + (int32_t)vf_nd_u16( "x", 0 ) ), 5 ); }
HARNESS( h_text9 ) { text( (int32_t)vf_nd_u16( "x", 0 ), 9 ); }
HARNESS( h_textm ) { text( any( "x", 0 ), -3 ); }
HARNESS( h_over )
{
    char s[ 16 ]; for ( int i = 0 ; i < 16 ; ++i ) { s[ i ] = '#'; }
    (void)fp16::toASCII( mk( MARK ), s, (int8_t)vf_nd_u8( "d", 0 ) );
    const char *e = "overflow"; bool ok = true; for ( int i = 0 ; i < 9 ; ++i ) { ok = ok && ( e[ i ] == s[ i ] ); }
    vf_assert( ok && ( '#' == s[ 9 ] ), "overflow is named" );
    vf_reach( "end" );
}
