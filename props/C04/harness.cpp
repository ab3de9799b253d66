/* C04: fixed-point sum, difference, product and quotient */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static const int32_t MARK = -2147483647 - 1;
static fp16 mk( int32_t r ) { fp16 f; std::memcpy( &f, &r, sizeof r ); return f; }
static int32_t any( const char *n, int i ) { const int32_t v = (int32_t)vf_nd_u32( n, i ); vf_assume( v != MARK ); return v; }
static int64_t mag( int64_t v ) { return ( v < 0 ) ? -v : v; }
static int32_t fit( int64_t v ) { return ( ( v > 2147483647 ) || ( v < MARK ) ) ? MARK : (int32_t)v; }
HARNESS( h_add )
{
    const int32_t x = any( "x", 0 ), y = any( "y", 0 ); const int32_t e = fit( (int64_t)x + y );
    fp16 a = mk( x ), b = mk( y ), c = a; c += b;
    vf_assert( ( ( a + b ).raw() == e ) && ( c.raw() == e ) && ( a.raw() == x ) && ( b.raw() == y ), "exact sum or overflow" );
    vf_assert( ( a + b ).isOverflow() == ( e == MARK ), "overflow is reported" );
    vf_reach( "end" );
}
HARNESS( h_sub )
{
    const int32_t x = any( "x", 0 ), y = any( "y", 0 ); const int32_t e = fit( (int64_t)x - y );
    fp16 a = mk( x ), b = mk( y ), c = a; c -= b;
    vf_assert( ( ( a - b ).raw() == e ) && ( c.raw() == e ) && ( a.raw() == x ) && ( b.raw() == y ), "exact difference or overflow" );
    vf_reach( "end" );
}
HARNESS( h_inc )
{
    const int32_t x = any( "x", 0 );
    fp16 a = mk( x ), b = a, c = a, d = a;
    vf_assert( ( ( ++a ).raw() == fit( (int64_t)x + 65536 ) ) && ( a.raw() == fit( (int64_t)x + 65536 ) ) && ( ( b++ ).raw() == x ) && ( b.raw() == a.raw() ), "increment by one" );
    vf_assert( ( ( --c ).raw() == fit( (int64_t)x - 65536 ) ) && ( c.raw() == fit( (int64_t)x - 65536 ) ) && ( ( d-- ).raw() == x ) && ( d.raw() == c.raw() ), "decrement by one" );
    vf_reach( "end" );
}
/* nearest, ties away from zero */
static int32_t prod( int32_t x, int32_t y ) { const int64_t p = (int64_t)x*y; return fit( ( p + 32768 - ( ( p < 0 ) ? 1 : 0 ) ) >> 16 ); }
static void times( int32_t x, int32_t y )
{
    fp16 a = mk( x ), b = mk( y );
    vf_assert( ( a*b ).raw() == prod( x, y ), "nearest product or overflow" );
    vf_reach( "end" );
}
HARNESS( h_mul_full ) { times( any( "x", 0 ), any( "y", 0 ) ); }
/* magnitude q of the quotient: nearest, ties away from zero, 2*q*Y <= 2*65536*X + Y < 2*( q + 1 )*Y; overflow from 2^31 on */
static void ratio( int32_t x, int32_t y )
{
    fp16 a = mk( x ), b = mk( y ); a /= b;
    const uint64_t X = (uint64_t)mag( x ), Y = (uint64_t)mag( y ), N = ( X << 17 ) + Y;
    const int32_t d = a.raw();
    if ( N >= ( Y << 32 ) ) { vf_assert( d == MARK, "overflow" ); }
    else {
        const uint64_t q = (uint64_t)mag( d );
        vf_assert( ( d != MARK ) && ( ( 0 == d ) || ( ( d < 0 ) == ( ( x < 0 ) != ( y < 0 ) ) ) ), "sign of the quotient" );
        vf_assert( ( q*( Y << 1 ) <= N ) && ( N < ( q + 1 )*( Y << 1 ) ), "nearest quotient" );
    }
}
/* dividends grouped by the size of the quotient: every one belongs to a group */
static void by( int32_t y )
{
    const int32_t x = any( "x", 0 ); const uint64_t X = (uint64_t)mag( x ), Y = (uint64_t)mag( y );
    for ( int s = 0 ; s <= 16 ; ++s ) {
        if ( ( ( 0 == s ) || ( X > ( Y << ( s - 1 ) ) ) ) && ( ( 16 == s ) || ( X <= ( Y << s ) ) ) ) { ratio( x, y ); }
    }
    vf_reach( "end" );
}
HARNESS( h_by_0 ) { by( 1 ); }
HARNESS( h_by_1 ) { by( 65536 ); }
HARNESS( h_by_2 ) { by( 196608 ); }
HARNESS( h_by_3 ) { by( -40960 ); }
HARNESS( h_by_4 ) { by( 2147483647 ); }
HARNESS( h_by_5 ) { by( -7 ); }
HARNESS( h_by_6 ) { by( -65537 ); }
HARNESS( h_by_7 ) { by( 131072 ); }
HARNESS( h_by_8 ) { by( -393216 ); }
HARNESS( h_ops )
{
    const int32_t x = (int32_t)vf_nd_u16( "x", 0 ) - 32768; fp16 a = mk( x*128 ), b = mk( 196608 ), p = a, d = a, s = a, m = a; p *= b; d /= b; s += b; m -= b;
    vf_assert( ( ( a*b ).raw() == p.raw() ) && ( ( a/b ).raw() == d.raw() ) && ( ( a + b ).raw() == s.raw() ) && ( ( a - b ).raw() == m.raw() ), "compound operators" );
    vf_assert( ( a.raw() == x*128 ) && ( b.raw() == 196608 ), "operands stay" );
    vf_reach( "end" );
}
static void of( int32_t x, int32_t y )
{
    vf_assume( y != 0 );
    const uint64_t X = (uint64_t)mag( x ), Y = (uint64_t)mag( y );
    for ( int s = 0 ; s <= 16 ; ++s ) {
        if ( ( ( 0 == s ) || ( X > ( Y << ( s - 1 ) ) ) ) && ( ( 16 == s ) || ( X <= ( Y << s ) ) ) ) { ratio( x, y ); }
    }
    vf_reach( "end" );
}
HARNESS( h_small ) { of( (int32_t)vf_nd_u8( "x", 0 ), (int32_t)vf_nd_u8( "y", 0 ) ); }
