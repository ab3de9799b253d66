/* C05: fixed-point conversions, rounding, sign and order */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static const int32_t MARK = -2147483647 - 1;
static fp16 mk( int32_t r ) { fp16 f; std::memcpy( &f, &r, sizeof r ); return f; }
static int32_t any( const char *n, int i ) { const int32_t v = (int32_t)vf_nd_u32( n, i ); vf_assume( v != MARK ); return v; }
static int64_t mag( int64_t v ) { return ( v < 0 ) ? -v : v; }
HARNESS( h_int )
{
    const int32_t i = (int16_t)vf_nd_u16( "i", 0 ); fp16 f = fp16::from( i ), g; g = i;
    vf_assert( ( f.raw() == i*65536 ) && ( g.raw() == f.raw() ) && ( fp16::toInt( f ) == i ), "integers convert exactly and back" );
    vf_reach( "end" );
}
HARNESS( h_toint )
{
    const int32_t x = any( "x", 0 ); const int64_t i = fp16::toInt( mk( x ) ), d = i*65536 - x;
    vf_assert( ( mag( d ) <= 32768 ) && ( ( mag( d ) < 32768 ) || ( ( x < 0 ) == ( d < 0 ) ) ), "nearest integer, halves away from zero" );
    vf_reach( "end" );
}
HARNESS( h_double )
{
    const int32_t x = any( "x", 0 ); const double d = fp16::toDouble( mk( x ) ); fp16 g; g = d;
    vf_assert( ( d*65536.0 == (double)x ) && ( fp16::from( d ).raw() == x ) && ( g.raw() == x ), "exact and back" );
    vf_reach( "end" );
}
HARNESS( h_fromdouble )
{
    const double d = vf_nd_f64( "d", 0 ); vf_assume( ( d <= 32767.9999 ) && ( d >= -32767.9999 ) );
    const int32_t r = fp16::from( d ).raw(); const double e = d*65536.0 - (double)r;
    vf_assert( ( e <= 0.5000001 ) && ( e >= -0.5000001 ), "nearest" );
    vf_reach( "end" );
}
HARNESS( h_fromfloat )
{
    const float d = vf_nd_f32( "d", 0 ); vf_assume( ( d < 32768.0f ) && ( d > -32768.0f ) );
    const int32_t r = fp16::from( d ).raw(); const double e = (double)d*65536.0 - (double)r; fp16 g; g = d;
    vf_assert( ( e <= 0.5 ) && ( e >= -0.5 ) && ( g.raw() == r ), "nearest" );
    vf_reach( "end" );
}
HARNESS( h_tofloat )
{
    const int32_t x = any( "x", 0 ); const float f = fp16::toFloat( mk( x ) ); const double e = (double)f*65536.0 - (double)x, m = ( x < 0 ) ? -(double)x : (double)x;
    vf_assert( ( ( e < 0.0 ) ? -e : e ) <= m/16777216.0, "nearest float" );
    if ( ( x < 16777216 ) && ( x > -16777216 ) ) { vf_assert( ( e == 0.0 ) && ( fp16::from( f ).raw() == x ), "exact and back below 24 bits" ); }
    vf_reach( "end" );
}
HARNESS( h_round )
{
    const int32_t x = any( "x", 0 ); const int32_t f = fp16::floor( mk( x ) ).raw(), c = fp16::ceil( mk( x ) ).raw(), r = fp16::rounding( mk( x ) ).raw();
    vf_assert( ( 0 == ( f & 65535 ) ) && ( f <= x ) && ( (int64_t)x - f < 65536 ), "floor" );
    if ( x <= 32767*65536 ) { vf_assert( ( 0 == ( c & 65535 ) ) && ( c >= x ) && ( (int64_t)c - x < 65536 ), "ceiling" ); } else { vf_assert( MARK == c, "ceiling beyond the largest integer" ); }
    if ( x < 32767*65536 + 32768 ) { vf_assert( ( 0 == ( r & 65535 ) ) && ( mag( (int64_t)r - x ) <= 32768 ), "nearest integer" ); } else { vf_assert( MARK == r, "rounding beyond the largest integer" ); }
    vf_reach( "end" );
}
HARNESS( h_sign )
{
    const int32_t x = any( "x", 0 ); fp16 a = mk( x );
    vf_assert( ( ( -a ).raw() == -x ) && ( fp16::absolute( a ).raw() == ( ( x < 0 ) ? -x : x ) ) && !a.isOverflow() && ( a.raw() == x ), "negation and magnitude" );
    vf_assert( mk( MARK ).isOverflow() && fp16::absolute( mk( MARK ) ).isOverflow(), "the overflow mark" );
    vf_reach( "end" );
}
HARNESS( h_order )
{
    const int32_t x = any( "x", 0 ), y = any( "y", 0 ); const fp16 a = mk( x ), b = mk( y ); fp16 c; vf_assert( 0 == c.raw(), "zero by default" ); c = a; const fp16 d( b );
    vf_assert( ( ( a < b ) == ( x < y ) ) && ( ( a <= b ) == ( x <= y ) ) && ( ( a > b ) == ( x > y ) ) && ( ( a >= b ) == ( x >= y ) ) && ( ( a == b ) == ( x == y ) ) && ( ( a != b ) == ( x != y ) ), "order of the values" );
    vf_assert( ( c.raw() == x ) && ( d.raw() == y ), "copies" );
    vf_reach( "end" );
}
HARNESS( h_const )
{
    vf_assert( ( ( 2.5_fp ).raw() == 163840 ) && ( ( 3_fp ).raw() == 196608 ) && ( ( 0.0000076_fp ).raw() == 0 ) && ( ( 0.0000077_fp ).raw() == 1 ), "literals" );
    const int32_t k[] = { FP_E.raw(), FP_LOG2E.raw(), FP_LOG10E.raw(), FP_LN2.raw(), FP_LN10.raw(), FP_PI.raw(), FP_PI_2.raw(), FP_PI_4.raw(), FP_1_PI.raw(), FP_2_PI.raw(), FP_2_SQRTPI.raw(), FP_SQRT2.raw(), FP_SQRT1_2.raw() };
    const int32_t e[] = { 178145, 94548, 28462, 45426, 150902, 205887, 102944, 51472, 20861, 41722, 73949, 92682, 46341 };
    bool ok = true; for ( int i = 0 ; i < 13 ; ++i ) { ok = ok && ( k[ i ] == e[ i ] ); }
    vf_assert( ok, "constants" );
    vf_reach( "end" );
}
