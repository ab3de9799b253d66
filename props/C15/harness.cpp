/* C15: grades of membership */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static const fis::rules RULES[] = { FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS 0 END FIS_RULES_END };
/* grade of membership of x in a set, seen as the strength of the rule "if x is set" */
static float grade( fis::shapeMF s, const float *p, float x, float h = 1.0f )
{
    fis::instance f; fis::input in[ 1 ]; fis::output out[ 1 ]; fis::mf mi[ 1 ], mo[ 1 ]; float w[ 1 ] = { 0.0f }; const float c[ 1 ] = { 0.0f };
    bool ok = f.setup( fis::Sugeno, in, out, mi, mo, RULES, w );
    ok = f.setupInput( 0, -1000.0f, 1000.0f ) && f.setupOutput( 0, -1.0f, 1.0f ) && ok;
    ok = f.setupInputMF( 0, 0, s, p, h ) && f.setupOutputMF( 0, 0, fis::constantmf, c ) && ok;
    ok = f.setInput( 0, x ) && f.fuzzify() && f.inference() && ok;
    vf_assert( ok, "configured and evaluated" );
    return w[ 0 ];
}
static float in( const char *n, int i, float lo, float hi ) { const float v = vf_nd_f32( n, i ); vf_assume( ( v >= lo ) && ( v <= hi ) ); return v; }
static float X( void ) { return in( "x", 0, -100.0f, 100.0f ); }
static float P( int i ) { return in( "p", i, -100.0f, 100.0f ); }
static float lim( float v ) { return ( v < 0.0f ) ? 0.0f : ( ( v > 1.0f ) ? 1.0f : v ); }
static float mn( float a, float b ) { return ( a < b ) ? a : b; }
#define GAP 0.0625f
/* --- piecewise linear and quadratic shapes */
HARNESS( h_tri )
{
    const float x = X(), p[ 3 ] = { P( 0 ), P( 1 ), P( 2 ) };
    vf_assume( ( p[ 1 ] - p[ 0 ] >= GAP ) && ( p[ 2 ] - p[ 1 ] >= GAP ) );
    vf_near( grade( fis::trimf, p, x ), ( x <= p[ 1 ] ) ? lim( ( x - p[ 0 ] )/( p[ 1 ] - p[ 0 ] ) ) : lim( ( p[ 2 ] - x )/( p[ 2 ] - p[ 1 ] ) ), 1e-3, "triangle" );
    vf_reach( "end" );
}
HARNESS( h_trap )
{
    const float x = X(), p[ 4 ] = { P( 0 ), P( 1 ), P( 2 ), P( 3 ) };
    vf_assume( ( p[ 1 ] - p[ 0 ] >= GAP ) && ( p[ 2 ] >= p[ 1 ] ) && ( p[ 3 ] - p[ 2 ] >= GAP ) );
    vf_near( grade( fis::trapmf, p, x ), ( x < p[ 1 ] ) ? lim( ( x - p[ 0 ] )/( p[ 1 ] - p[ 0 ] ) ) : ( ( x > p[ 2 ] ) ? lim( ( p[ 3 ] - x )/( p[ 3 ] - p[ 2 ] ) ) : 1.0f ), 1e-3, "trapezium" );
    vf_reach( "end" );
}
static float sexp( float x, float a, float b ) { const float m = 0.5f*( a + b ), t = ( x - a )/( b - a ), u = ( x - b )/( b - a ); return ( x <= a ) ? 0.0f : ( ( x >= b ) ? 1.0f : ( ( x <= m ) ? 2.0f*t*t : 1.0f - 2.0f*u*u ) ); }
HARNESS( h_s ) { const float x = X(), p[ 2 ] = { P( 0 ), P( 1 ) }; vf_assume( p[ 1 ] - p[ 0 ] >= GAP ); vf_near( grade( fis::smf, p, x ), sexp( x, p[ 0 ], p[ 1 ] ), 1e-3, "s-shaped" ); vf_reach( "end" ); }
HARNESS( h_z ) { const float x = X(), p[ 2 ] = { P( 0 ), P( 1 ) }; vf_assume( p[ 1 ] - p[ 0 ] >= GAP ); vf_near( grade( fis::zmf, p, x ), 1.0f - sexp( x, p[ 0 ], p[ 1 ] ), 1e-3, "z-shaped" ); vf_reach( "end" ); }
HARNESS( h_pi )
{
    const float x = X(), p[ 4 ] = { P( 0 ), P( 1 ), P( 2 ), P( 3 ) };
    vf_assume( ( p[ 1 ] - p[ 0 ] >= GAP ) && ( p[ 2 ] >= p[ 1 ] ) && ( p[ 3 ] - p[ 2 ] >= GAP ) );
    vf_near( grade( fis::pimf, p, x ), ( x <= p[ 1 ] ) ? sexp( x, p[ 0 ], p[ 1 ] ) : ( 1.0f - sexp( x, p[ 2 ], p[ 3 ] ) ), 1e-3, "pi-shaped" );
    vf_reach( "end" );
}
HARNESS( h_lins ) { const float x = X(), p[ 2 ] = { P( 0 ), P( 1 ) }; vf_assume( p[ 1 ] - p[ 0 ] >= GAP ); vf_near( grade( fis::linsmf, p, x ), lim( ( x - p[ 0 ] )/( p[ 1 ] - p[ 0 ] ) ), 1e-3, "linear rise" ); vf_reach( "end" ); }
HARNESS( h_linz ) { const float x = X(), p[ 2 ] = { P( 0 ), P( 1 ) }; vf_assume( p[ 1 ] - p[ 0 ] >= GAP ); vf_near( grade( fis::linzmf, p, x ), lim( ( p[ 1 ] - x )/( p[ 1 ] - p[ 0 ] ) ), 1e-3, "linear fall" ); vf_reach( "end" ); }
HARNESS( h_conc )
{
    const float x = X(), p[ 2 ] = { P( 0 ), P( 1 ) }; vf_assume( ( p[ 1 ] - p[ 0 ] >= GAP ) || ( p[ 0 ] - p[ 1 ] >= GAP ) );
    const bool up = p[ 0 ] < p[ 1 ];
    const float d = up ? ( p[ 1 ] - p[ 0 ] ) : ( p[ 0 ] - p[ 1 ] ), e = up ? ( p[ 1 ] - x ) : ( x - p[ 1 ] );
    vf_near( grade( fis::concavemf, p, x ), ( e <= 0.0f ) ? 1.0f : d/( d + e ), 1e-3, "concave" );
    vf_reach( "end" );
}
/* --- shapes with an exponential, a power or a cosine (uninterpreted) */
HARNESS( h_gauss ) { const float x = X(), p[ 2 ] = { in( "s", 0, GAP, 100.0f ), P( 1 ) }; const float t = ( x - p[ 1 ] )/p[ 0 ]; vf_near( grade( fis::gaussmf, p, x ), lim( ffmath::exp( -0.5f*t*t ) ), 1e-3, "gaussian" ); vf_reach( "end" ); }
HARNESS( h_gauss2 )
{
    const float x = X(), p[ 4 ] = { in( "s", 0, GAP, 100.0f ), P( 1 ), in( "s", 2, GAP, 100.0f ), P( 3 ) }; vf_assume( p[ 1 ] <= p[ 3 ] );
    const float t = ( x - p[ 1 ] )/p[ 0 ], u = ( x - p[ 3 ] )/p[ 2 ];
    vf_near( grade( fis::gauss2mf, p, x ), ( x < p[ 1 ] ) ? ffmath::exp( -0.5f*t*t ) : ( ( x > p[ 3 ] ) ? ffmath::exp( -0.5f*u*u ) : 1.0f ), 1e-3, "gaussian combination" );
    vf_reach( "end" );
}
HARNESS( h_sig ) { const float x = X(), p[ 2 ] = { P( 0 ), P( 1 ) }; vf_near( grade( fis::sigmf, p, x ), lim( 1.0f/( 1.0f + ffmath::exp( -p[ 0 ]*( x - p[ 1 ] ) ) ) ), 1e-3, "sigmoid" ); vf_reach( "end" ); }
HARNESS( h_dsig )
{
    const float x = X(), p[ 4 ] = { P( 0 ), P( 1 ), P( 2 ), P( 3 ) };
    const float d = 1.0f/( 1.0f + ffmath::exp( -p[ 0 ]*( x - p[ 1 ] ) ) ) - 1.0f/( 1.0f + ffmath::exp( -p[ 2 ]*( x - p[ 3 ] ) ) );
    vf_near( grade( fis::dsigmf, p, x ), lim( ( d < 0.0f ) ? -d : d ), 1e-3, "difference of sigmoids" );
    vf_reach( "end" );
}
HARNESS( h_psig )
{
    const float x = X(), p[ 4 ] = { P( 0 ), P( 1 ), P( 2 ), P( 3 ) };
    vf_near( grade( fis::psigmf, p, x ), lim( 1.0f/( 1.0f + ffmath::exp( -p[ 0 ]*( x - p[ 1 ] ) ) )*( 1.0f/( 1.0f + ffmath::exp( -p[ 2 ]*( x - p[ 3 ] ) ) ) ) ), 1e-3, "product of sigmoids" );
    vf_reach( "end" );
}
HARNESS( h_spike ) { const float x = X(), p[ 2 ] = { in( "s", 0, GAP, 100.0f ), P( 1 ) }; const float t = 10.0f*( x - p[ 1 ] )/p[ 0 ]; vf_near( grade( fis::spikemf, p, x ), ffmath::exp( ( t < 0.0f ) ? t : -t ), 1e-3, "spike" ); vf_reach( "end" ); }
HARNESS( h_cos )
{
    const float x = X(), p[ 2 ] = { P( 0 ), in( "s", 1, GAP, 100.0f ) };
    const float d = x - p[ 0 ];
    vf_near( grade( fis::cosmf, p, x ), ( ( d < -0.5f*p[ 1 ] ) || ( d > 0.5f*p[ 1 ] ) ) ? 0.0f : 0.5f*( 1.0f + ffmath::cos( 2.0f/p[ 1 ]*ffmath::FFP_PI*d ) ), 1e-3, "cosine" );
    vf_reach( "end" );
}
HARNESS( h_bell )
{
    const float x = X(), p[ 3 ] = { in( "s", 0, GAP, 100.0f ), in( "b", 1, 0.25f, 4.0f ), P( 2 ) };
    const float d = x - p[ 2 ];
    vf_near( grade( fis::gbellmf, p, x ), 1.0f/( 1.0f + ffmath::pow( ( ( d < 0.0f ) ? -d : d )/p[ 0 ], 2.0f*p[ 1 ] ) ), 1e-3, "generalised bell" );
    vf_reach( "end" );
}
/* --- bit-precise */
static float any( const char *n, int i ) { const uint32_t u = vf_nd_u32( n, i ); float f; memcpy( &f, &u, 4 ); return f; }
static bool fin( float x ) { uint32_t u; memcpy( &u, &x, 4 ); return ( u & 0x7FFFFFFFu ) < 0x7F800000u; }
static bool mod( float x ) { return ( x <= 1000.0f ) && ( x >= -1000.0f ); }
static void edge( int which )
{
    const float a = any( "a", 0 ), b = any( "a", 1 ), c = any( "a", 2 ); vf_assume( mod( a ) && mod( b ) && mod( c ) && ( a < b ) && ( b < c ) );
    const float l[ 3 ] = { b, b, c }, r[ 3 ] = { a, b, b }, tl[ 4 ] = { a, a, b, c }, tr[ 4 ] = { a, b, c, c };
    if ( 0 == which ) { vf_assert( 1.0f == grade( fis::trimf, l, b ), "corner of a triangle with a vertical left edge" ); }
    else if ( 1 == which ) { vf_assert( 1.0f == grade( fis::trimf, r, b ), "corner of a triangle with a vertical right edge" ); }
    else if ( 2 == which ) { vf_assert( 1.0f == grade( fis::trapmf, tl, a ), "corner of a trapezium with a vertical left edge" ); }
    else if ( 3 == which ) { vf_assert( 1.0f == grade( fis::trapmf, tr, c ), "corner of a trapezium with a vertical right edge" ); }
    else if ( 4 == which ) { vf_assert( ( 0.0f == grade( fis::trimf, l, a ) ) && ( 0.0f == grade( fis::trimf, r, c ) ), "beyond the vertical edge of a triangle" ); }
    else { const float sl[ 4 ] = { b, b, c, c }; vf_assert( ( 0.0f == grade( fis::trapmf, sl, a ) ) && ( 1.0f == grade( fis::trapmf, sl, b ) ) && ( 1.0f == grade( fis::trapmf, sl, c ) ), "trapezium with two vertical edges" ); }
    vf_reach( "end" );
}
HARNESS( h_edge0 ) { edge( 0 ); }
HARNESS( h_edge1 ) { edge( 1 ); }
HARNESS( h_edge2 ) { edge( 2 ); }
HARNESS( h_edge3 ) { edge( 3 ); }
HARNESS( h_edge4 ) { edge( 4 ); }
HARNESS( h_edge5 ) { edge( 5 ); }
HARNESS( h_rect )
{
    const float x = any( "x", 0 ), a = any( "a", 0 ), b = any( "a", 1 ), p[ 2 ] = { a, b }; vf_assume( mod( x ) );
    vf_assert( grade( fis::rectmf, p, x ) == ( ( ( x >= a ) && ( x <= b ) ) ? 1.0f : 0.0f ), "rectangle, ends included" );
    vf_assert( ( 1.0f == grade( fis::singletonmf, &x, x ) ), "the singleton is a member of its set" );
    vf_assume( ( x - a > 0.01f ) || ( a - x > 0.01f ) );
    vf_assert( ( 0.0f == grade( fis::singletonmf, p, x ) ), "other values are not" );
    vf_reach( "end" );
}
HARNESS( h_step )
{
    const float x = any( "x", 0 ), a = any( "a", 0 ), p[ 2 ] = { a, a }; vf_assume( mod( x ) && mod( a ) );
    vf_assert( grade( fis::linsmf, p, x ) == ( ( x < a ) ? 0.0f : 1.0f ), "vertical rise" );
    vf_assert( grade( fis::linzmf, p, x ) == ( ( x < a ) ? 1.0f : 0.0f ), "vertical fall" );
    vf_reach( "end" );
}
/* any shape value at all (a user's function returning anything): the grade is the value times the height, kept within [0,1] */
static float cv;
static float custom( const fis::ioBase * const, const float *, const size_t ) { return cv; }
HARNESS( h_range )
{
    const float x = any( "x", 0 ), h = any( "h", 0 ); cv = any( "v", 0 );
    fis::instance f; fis::input inp[ 1 ]; fis::output out[ 1 ]; fis::mf mi[ 1 ], mo[ 1 ]; float w[ 1 ] = { 0.0f }; const float c[ 1 ] = { 0.0f };
    bool ok = f.setup( fis::Sugeno, inp, out, mi, mo, RULES, w );
    ok = f.setupInputMF( 0, 0, custom, nullptr, h ) && f.setupOutputMF( 0, 0, fis::constantmf, c ) && ok;
    ok = f.setInput( 0, x ) && f.fuzzify() && f.inference() && ok;
    const float e = cv*( ( h >= 1.0f ) ? 1.0f : ( ( h > 0.0f ) ? h : 0.0f ) );
    vf_assert( ok && ( w[ 0 ] >= 0.0f ) && ( w[ 0 ] <= 1.0f ), "the grade is within [0,1] for every input, value and height" );
    if ( fin( cv ) ) { vf_assert( w[ 0 ] == lim( e ), "the grade is the value scaled by the height" ); }
    vf_reach( "end" );
}
/* inputs are limited to their range before they are evaluated */
HARNESS( h_clip )
{
    const float x = any( "x", 0 ), lo = any( "a", 0 ), hi = any( "a", 1 ); vf_assume( mod( lo ) && mod( hi ) && ( lo <= hi ) );
    fis::instance f; fis::input inp[ 1 ]; fis::output out[ 1 ]; fis::mf mi[ 1 ], mo[ 1 ]; float w[ 1 ] = { 0.0f };
    const float p[ 2 ] = { lo, hi }, q[ 2 ] = { 1.0f, 0.0f };
    bool ok = f.setup( fis::Sugeno, inp, out, mi, mo, RULES, w );
    ok = f.setupInput( 0, lo, hi ) && f.setupOutput( 0, -1000.0f, 1000.0f ) && f.setupInputMF( 0, 0, fis::rectmf, p ) && f.setupOutputMF( 0, 0, fis::linearmf, q ) && ok;
    ok = f.setInput( 0, x ) && f.fuzzify() && f.inference() && f.deFuzzify() && ok;
    float y = 0.0f; ok = f.getOutput( 0, y ) && ok;
    vf_assert( ok && ( 1.0f == w[ 0 ] ), "inside its range" );
    vf_assert( y == ( ( x >= hi ) ? hi : ( ( x > lo ) ? x : lo ) ), "the nearest end of the range" );
    vf_reach( "end" );
}
