/* C17: crisp outputs: every kind of system and de-fuzzification method */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static float in( const char *n, int i, float lo, float hi ) { const float v = vf_nd_f32( n, i ); vf_assume( ( v >= lo ) && ( v <= hi ) ); return v; }
static float lim( float v, float lo, float hi ) { return ( v < lo ) ? lo : ( ( v > hi ) ? hi : v ); }
static float mn( float a, float b ) { return ( a < b ) ? a : b; }
static float mx( float a, float b ) { return ( a > b ) ? a : b; }
enum { x0, x1 }; enum { s0, s1 }; enum { y0, y1 }; enum { t0, t1, t2 };
/* two inputs, two sets with symbolic grades, three output sets */
struct sys {
    fis::instance f; fis::input i[ 2 ]; fis::output o[ 2 ]; fis::mf mi[ 2 ], mo[ 3 ]; float w[ 3 ], g[ 2 ]; bool ok;
    void init( fis::type t, const fis::rules *r, size_t rules, size_t outs, float lo = 0.0f ) {
        ok = f.setup( t, i, 2, o, outs, mi, 2, mo, 3, r, rules, w );
        for ( int k = 0 ; k < 2 ; ++k ) {
            g[ k ] = in( "g", k, lo, 1.0f );
            ok = f.setupInput( (fis::tag)k, -100.0f, 100.0f ) && f.setupInputMF( (fis::tag)k, (fis::tag)k, fis::constantmf, &g[ k ] ) && ok;
        }
    }
    void run( void ) { ok = ok && f.fuzzify() && f.inference() && f.deFuzzify(); }
};
static const fis::rules RA[] = { FIS_RULES_BEGIN
    IF x0 IS s0 THEN y0 IS t0 END
    IF x1 IS s1 THEN y0 IS t1 END
FIS_RULES_END };
static const fis::rules RN[] = { FIS_RULES_BEGIN
    IF x0 IS s0 THEN y0 IS_NOT t0 END
    IF x1 IS s1 THEN y0 IS t1 END
FIS_RULES_END };
static const fis::rules RB[] = { FIS_RULES_BEGIN
    IF x0 IS s0 AND x1 IS s1 THEN y0 IS t0 AND y1 IS t2 END
    IF x0 IS s0 THEN y1 IS t2 END
    IF x0 IS_NOT s0 OR x1 IS s1 THEN y1 IS t2 AND y0 IS t1 END
FIS_RULES_END };
static const fis::rules R1[] = { FIS_RULES_BEGIN IF x0 IS s0 THEN y0 IS t0 END FIS_RULES_END };
/* Sugeno, one output, constant levels */
HARNESS( h_sug_const )
{
    sys s; s.init( fis::Sugeno, RA, 2, 1 ); float c[ 2 ];
    for ( int k = 0 ; k < 2 ; ++k ) { c[ k ] = in( "c", k, -50.0f, 50.0f ); s.ok = s.f.setupOutputMF( y0, (fis::tag)k, fis::constantmf, &c[ k ], 0.25f ) && s.ok; }
    const float lo = in( "lo", 0, -100.0f, 0.0f ), hi = in( "hi", 0, 1.0f, 100.0f ), W = s.g[ 0 ] + s.g[ 1 ];
    vf_assume( W > 0.01f );
    s.ok = s.f.setupOutput( y0, lo, hi ) && s.ok; s.run(); float v;
    vf_assert( s.ok && s.f.getOutput( y0, v ), "evaluated" );
    const float e = s.g[ 0 ]*c[ 0 ] + s.g[ 1 ]*c[ 1 ];
    vf_near( v, lim( e/W, lo, hi ), 1e-3, "average of the levels weighted by the strengths, limited to the range" );
    vf_assert( s.f.setDeFuzzMethod( fis::wtsum ), "weighted sum selected" );
    s.run();
    vf_assert( s.ok && s.f.getOutput( y0, v ), "evaluated" );
    vf_near( v, lim( e, lo, hi ), 1e-3, "sum of the levels weighted by the strengths, limited to the range" );
    vf_assert( s.f[ y0 ] == v, "both ways to read the output agree" );
    vf_reach( "end" );
}
/* Sugeno, two outputs, linear levels and rule weights */
HARNESS( h_sug_lin )
{
    sys s; s.init( fis::Sugeno, RB, 3, 2, 0.25f ); float c[ 3 ][ 3 ], k[ 3 ], u[ 2 ];
    for ( int j = 0 ; j < 3 ; ++j ) {
        for ( int i = 0 ; i < 3 ; ++i ) { c[ j ][ i ] = in( "c", 3*j + i, -10.0f, 10.0f ); }
        k[ j ] = in( "k", j, 0.25f, 1.0f );
        s.ok = s.f.setupOutputMF( ( j < 2 ) ? y0 : y1, (fis::tag)j, fis::linearmf, c[ j ] ) && s.ok;
    }
    for ( int i = 0 ; i < 2 ; ++i ) { u[ i ] = in( "u", i, -20.0f, 20.0f ); s.ok = s.f.setInput( (fis::tag)i, u[ i ] ) && s.f.setupOutput( (fis::tag)i, -500.0f, 500.0f ) && s.ok; }
    s.ok = s.f.setRuleWeights( k ) && s.f.setParameter( fis::FIS_AND, fis::FIS_PROD ) && s.f.setParameter( fis::FIS_OR, fis::FIS_PROBOR ) && s.ok;
    s.run(); float v[ 2 ];
    vf_assert( s.ok && s.f.getOutput( y0, v[ 0 ] ) && s.f.getOutput( y1, v[ 1 ] ), "evaluated" );
    const float a = 1.0f - s.g[ 0 ], b = s.g[ 1 ];
    const float w0 = s.g[ 0 ]*b*k[ 0 ], w2 = ( a + b - a*b )*k[ 2 ];
    const float z0 = c[ 0 ][ 0 ]*u[ 0 ] + c[ 0 ][ 1 ]*u[ 1 ] + c[ 0 ][ 2 ], z1 = c[ 1 ][ 0 ]*u[ 0 ] + c[ 1 ][ 1 ]*u[ 1 ] + c[ 1 ][ 2 ], z2 = c[ 2 ][ 0 ]*u[ 0 ] + c[ 2 ][ 1 ]*u[ 1 ] + c[ 2 ][ 2 ];
    vf_near( v[ 0 ], ( w0*z0 + w2*z1 )/( w0 + w2 ), 1e-2, "first output" );
    vf_near( v[ 1 ], z2, 1e-2, "an output whose rules share their level" );
    vf_reach( "end" );
}
/* a second evaluation depends on nothing of the first */
HARNESS( h_again )
{
    sys s; s.init( fis::Sugeno, RA, 2, 1, 0.125f ); float c[ 2 ];
    for ( int k = 0 ; k < 2 ; ++k ) { c[ k ] = in( "c", k, -50.0f, 50.0f ); s.ok = s.f.setupOutputMF( y0, (fis::tag)k, fis::constantmf, &c[ k ] ) && s.ok; }
    s.ok = s.f.setupOutput( y0, -100.0f, 100.0f ) && s.ok; s.run();
    for ( int k = 0 ; k < 2 ; ++k ) { s.g[ k ] = in( "g", 2 + k, 0.125f, 1.0f ); }
    s.run(); float v;
    vf_assert( s.ok && s.f.getOutput( y0, v ), "evaluated" );
    vf_near( v, ( s.g[ 0 ]*c[ 0 ] + s.g[ 1 ]*c[ 1 ] )/( s.g[ 0 ] + s.g[ 1 ] ), 1e-3, "average of the new strengths" );
    vf_reach( "end" );
}
/* every output stays within its range, whatever the levels and strengths (bit-precise) */
static void ranged( fis::type t, fis::deFuzzMethod m, const fis::shapeMF sh )
{
    sys s; s.ok = s.f.setup( t, s.i, 2, s.o, 1, s.mi, 2, s.mo, 3, RA, 2, s.w ); float c[ 2 ][ 2 ];
    for ( int k = 0 ; k < 2 ; ++k ) {
        s.g[ k ] = vf_nd_f32( "g", k ); c[ k ][ 0 ] = vf_nd_f32( "c", 2*k ); c[ k ][ 1 ] = vf_nd_f32( "c", 2*k + 1 );
        s.ok = s.f.setupInputMF( (fis::tag)k, (fis::tag)k, fis::constantmf, &s.g[ k ] ) && s.f.setupOutputMF( y0, (fis::tag)k, sh, c[ k ] ) && s.ok;
    }
    const float lo = vf_nd_f32( "lo", 0 ), hi = vf_nd_f32( "hi", 0 );
    vf_assume( lo <= hi );
    s.ok = s.f.setupOutput( y0, lo, hi ) && s.f.setDeFuzzMethod( m ) && s.ok;
    s.run(); float v = 0.0f;
    vf_assert( s.ok && s.f.getOutput( y0, v ) && ( v >= lo ) && ( v <= hi ), "within the range of the output" );
    vf_reach( "end" );
}
HARNESS( h_in_aver ) { ranged( fis::Sugeno, fis::wtaver, fis::constantmf ); }
HARNESS( h_in_sum ) { ranged( fis::Sugeno, fis::wtsum, fis::constantmf ); }
HARNESS( h_in_tsu ) { ranged( fis::Tsukamoto, fis::wtaver, fis::tlinsmf ); }
/* Tsukamoto: the set has the grade of the strength at the output */
static float tsuka( const fis::shapeMF sh, float *p, float lo, float &g )
{
    sys s; s.init( fis::Tsukamoto, R1, 1, 1 ); float v = 0.0f;
    vf_assume( ( s.g[ 0 ] >= lo ) && ( s.g[ 0 ] <= 1.0f - lo ) );
    s.ok = s.f.setupOutputMF( y0, 0, sh, p, 0.5f ) && s.f.setupOutput( y0, -200.0f, 200.0f ) && s.ok;
    s.run();
    vf_assert( s.ok && s.f.getOutput( y0, v ), "evaluated" );
    g = s.g[ 0 ];
    return v;
}
static void pts( float *p, int n ) { for ( int k = 0 ; k < n ; ++k ) { p[ k ] = in( "p", k, -50.0f, 50.0f ); if ( k > 0 ) { vf_assume( p[ k ] - p[ k - 1 ] >= 0.5f ); } } }
HARNESS( h_tlins ) { float p[ 2 ], g; pts( p, 2 ); const float v = tsuka( fis::tlinsmf, p, 0.0625f, g ); vf_near( ( v - p[ 0 ] )/( p[ 1 ] - p[ 0 ] ), g, 1e-3, "rising line" ); vf_reach( "end" ); }
HARNESS( h_tlinz ) { float p[ 2 ], g; pts( p, 2 ); const float v = tsuka( fis::tlinzmf, p, 0.0625f, g ); vf_near( ( p[ 1 ] - v )/( p[ 1 ] - p[ 0 ] ), g, 1e-3, "falling line" ); vf_reach( "end" ); }
HARNESS( h_tramp ) { float p[ 2 ], g; p[ 0 ] = in( "p", 0, -50.0f, 50.0f ); p[ 1 ] = in( "p", 1, -50.0f, 50.0f ); const float v = tsuka( fis::trampmf, p, 0.0625f, g ); vf_near( v, p[ 0 ] + g*( p[ 1 ] - p[ 0 ] ), 1e-3, "ramp" ); vf_reach( "end" ); }
/* the concave set is ( e - i )/( 2e - i - x ) up to its end and 1 above */
static void tconc( bool rising )
{
    float p[ 2 ], g; p[ 0 ] = in( "p", 0, -20.0f, 20.0f ); p[ 1 ] = in( "p", 1, -20.0f, 20.0f );
    vf_assume( rising ? ( p[ 1 ] - p[ 0 ] >= 0.5f ) : ( p[ 0 ] - p[ 1 ] >= 0.5f ) );
    const float v = tsuka( fis::tconcavemf, p, 0.25f, g );
    vf_near( g*( 2.0f*p[ 1 ] - p[ 0 ] - v ), p[ 1 ] - p[ 0 ], 1e-2, "concave set" );
    vf_reach( "end" );
}
HARNESS( h_tconc_up ) { tconc( true ); }
HARNESS( h_tconc_down ) { tconc( false ); }
/* the sigmoid is 1/( 1 + exp( -a( x - c ) ) ) */
HARNESS( h_tsig )
{
    float p[ 2 ], g; p[ 0 ] = in( "p", 0, 0.25f, 10.0f ); p[ 1 ] = in( "p", 1, -20.0f, 20.0f );
    if ( vf_nd_b( "down", 0 ) ) { p[ 0 ] = -p[ 0 ]; }
    const float v = tsuka( fis::tsigmf, p, 0.0625f, g ), l = ffmath::log( ( 1.0f/g ) - 1.0f );
    vf_assume( ( l <= 3.0f ) && ( l >= -3.0f ) );
    vf_near( ( v - p[ 1 ] )*p[ 0 ], -l, 1e-3, "sigmoid" );
    vf_reach( "end" );
}
/* full strength sits at the end of the range the sigmoid tends to (bit-precise) */
HARNESS( h_tsig_full )
{
    fis::instance f; fis::input i[ 1 ]; fis::output o[ 1 ]; fis::mf mi[ 1 ], mo[ 1 ]; float w[ 1 ], p[ 2 ], g = 1.0f, v = 0.0f;
    p[ 0 ] = in( "p", 0, -50.0f, 50.0f ); p[ 1 ] = in( "p", 1, -50.0f, 50.0f ); vf_assume( p[ 0 ] != 0.0f );
    const float lo = in( "lo", 0, -100.0f, 100.0f ), hi = in( "hi", 0, -100.0f, 100.0f ); vf_assume( lo < hi );
    const bool ok = f.setup( fis::Tsukamoto, i, 1, o, 1, mi, 1, mo, 1, R1, 1, w ) && f.setupInputMF( x0, s0, fis::constantmf, &g ) && f.setupOutputMF( y0, t0, fis::tsigmf, p ) && f.setupOutput( y0, lo, hi ) && f.fuzzify() && f.inference() && f.deFuzzify() && f.getOutput( y0, v );
    vf_assert( ok && ( v == ( ( p[ 0 ] > 0.0f ) ? hi : lo ) ), "end of the range" );
    vf_reach( "end" );
}
/* the s and z shapes are quadratic on both sides of the middle point */
static void tquad( const fis::shapeMF sh, bool s, float a, float b )
{
    float p[ 2 ] = { a, b }, g; if ( a == b ) { pts( p, 2 ); }
    const float v = tsuka( sh, p, 0.0625f, g ), u = ( v - p[ 0 ] )/( p[ 1 ] - p[ 0 ] ), e = s ? g : 1.0f - g;
    vf_assert( ( u >= -1e-3f ) && ( u <= 1.0f + 1e-3f ), "between the points" );
    if ( e <= 0.5f ) { vf_near( 2.0f*u*u, e, 1e-3, "lower half" ); } else { vf_near( 1.0f - 2.0f*( 1.0f - u )*( 1.0f - u ), e, 1e-3, "upper half" ); }
    vf_reach( "end" );
}
HARNESS( h_ts ) { tquad( fis::tsmf, true, -10.0f, 30.0f ); }
HARNESS( h_tz ) { tquad( fis::tzmf, false, -10.0f, 30.0f ); }
HARNESS( h_ts1 ) { tquad( fis::tsmf, true, 0.5f, 1.5f ); }
HARNESS( h_tz1 ) { tquad( fis::tzmf, false, 0.5f, 1.5f ); }
HARNESS( h_ts_any ) { tquad( fis::tsmf, true, 0.0f, 0.0f ); }
/* two rules: average of the levels weighted by the strengths */
HARNESS( h_tsu2 )
{
    sys s; s.init( fis::Tsukamoto, RA, 2, 1, 0.125f ); float p[ 2 ][ 2 ], v;
    for ( int k = 0 ; k < 2 ; ++k ) { for ( int j = 0 ; j < 2 ; ++j ) { p[ k ][ j ] = in( "p", 2*k + j, -50.0f, 50.0f ); } s.ok = s.f.setupOutputMF( y0, (fis::tag)k, k ? fis::tlinzmf : fis::tlinsmf, p[ k ] ) && s.ok; }
    s.ok = s.f.setupOutput( y0, -200.0f, 200.0f ) && s.ok;
    s.run();
    vf_assert( s.ok && s.f.getOutput( y0, v ) && !s.f.setDeFuzzMethod( fis::wtsum ), "evaluated" );
    const float a = s.g[ 0 ], b = s.g[ 1 ], z0 = p[ 0 ][ 0 ] + a*( p[ 0 ][ 1 ] - p[ 0 ][ 0 ] ), z1 = p[ 1 ][ 1 ] - b*( p[ 1 ][ 1 ] - p[ 1 ][ 0 ] );
    vf_near( v, ( a*z0 + b*z1 )/( a + b ), 1e-3, "average of the levels" );
    vf_reach( "end" );
}
/* Mamdani: range [0,100], sets [10,40] and [30,80], 100 points at the middle of each unit */
#define IN0( k ) ( ( ( k ) >= 10 ) && ( ( k ) < 40 ) )
#define IN1( k ) ( ( ( k ) >= 30 ) && ( ( k ) < 80 ) )
struct mam : sys {
    float p[ 2 ][ 2 ], h[ 2 ], v;
    void go( fis::deFuzzMethod m, fis::paramValue imp, fis::paramValue agg, bool neg, float lo = 0.0625f ) {
        init( fis::Mamdani, neg ? RN : RA, 2, 1, lo );
        p[ 0 ][ 0 ] = 10.0f; p[ 0 ][ 1 ] = 40.0f; p[ 1 ][ 0 ] = 30.0f; p[ 1 ][ 1 ] = 80.0f;
        for ( int k = 0 ; k < 2 ; ++k ) { ok = f.setupOutputMF( y0, (fis::tag)k, fis::rectmf, p[ k ] ) && ok; }
        ok = f.setupOutput( y0, 0.0f, 100.0f ) && f.setDeFuzzMethod( m ) && f.setParameter( fis::FIS_Implication, imp ) && f.setParameter( fis::FIS_Aggregation, agg ) && ok;
        run();
        vf_assert( ok && f.getOutput( y0, v ), "evaluated" );
    }
};
static float joined( fis::paramValue agg, float a, float b ) { return ( fis::FIS_MAX == agg ) ? mx( a, b ) : ( ( fis::FIS_PROBOR == agg ) ? a + b - a*b : mn( 1.0f, a + b ) ); }
/* 20, 10 and 40 points in [10,30), [30,40) and [40,80): sums of the grade and of the abscissa */
static void centr( fis::paramValue imp, fis::paramValue agg )
{
    mam s; s.go( fis::centroid, imp, agg, false );
    const float a = s.g[ 0 ], b = s.g[ 1 ], j = joined( agg, a, b );
    const float A = 20.0f*a + 10.0f*j + 40.0f*b, M = 400.0f*a + 350.0f*j + 2400.0f*b;
    vf_near( s.v*A, M, 1e-2, "center of the aggregated region" );
    vf_reach( "end" );
}
HARNESS( h_cen_max ) { centr( fis::FIS_MIN, fis::FIS_MAX ); }
HARNESS( h_cen_por ) { centr( fis::FIS_PROD, fis::FIS_PROBOR ); }
HARNESS( h_cen_sum ) { centr( fis::FIS_PROD, fis::FIS_SUM ); }
/* negated conclusion: 1 outside [10,40) */
HARNESS( h_cen_neg )
{
    mam s; s.go( fis::centroid, fis::FIS_MIN, fis::FIS_MAX, true );
    const float a = s.g[ 0 ], b = s.g[ 1 ], j = mx( a, b );
    const float A = 10.0f*a + 10.0f*b + 40.0f*j + 20.0f*a, M = 50.0f*a + 350.0f*b + 2400.0f*j + 1800.0f*a;
    vf_near( s.v*A, M, 1e-2, "center of the aggregated region" );
    vf_reach( "end" );
}
/* first, last and mean abscissa of the maximum */
static void maxima( fis::deFuzzMethod m )
{
    mam s; s.go( m, fis::FIS_MIN, fis::FIS_MAX, false );
    const float a = s.g[ 0 ], b = s.g[ 1 ];
    vf_assume( ( a > b + 0.01f ) || ( b > a + 0.01f ) || ( a == b ) );
    const float first = ( a >= b ) ? 10.5f : 30.5f, last = ( a > b ) ? 39.5f : 79.5f;
    vf_near( s.v, ( fis::som == m ) ? first : ( ( fis::lom == m ) ? last : 0.5f*( first + last ) ), 1e-2, "abscissa of the maximum" );
    vf_reach( "end" );
}
HARNESS( h_som ) { maxima( fis::som ); }
HARNESS( h_lom ) { maxima( fis::lom ); }
HARNESS( h_mom ) { maxima( fis::mom ); }
/* a maximum at a single point, above or below a plateau */
static void peak( fis::deFuzzMethod m )
{
    mam s; s.init( fis::Mamdani, RA, 2, 1, 0.0625f );
    s.p[ 0 ][ 0 ] = 50.25f; s.p[ 0 ][ 1 ] = 50.75f; s.p[ 1 ][ 0 ] = 30.0f; s.p[ 1 ][ 1 ] = 40.0f;
    for ( int k = 0 ; k < 2 ; ++k ) { s.ok = s.f.setupOutputMF( y0, (fis::tag)k, fis::rectmf, s.p[ k ] ) && s.ok; }
    s.ok = s.f.setupOutput( y0, 0.0f, 100.0f ) && s.f.setDeFuzzMethod( m ) && s.ok;
    s.run();
    const float a = s.g[ 0 ], b = s.g[ 1 ];
    vf_assert( s.ok && s.f.getOutput( y0, s.v ), "evaluated" );
    vf_assume( ( a > b + 0.01f ) || ( b > a + 0.01f ) );
    const float first = ( a > b ) ? 50.5f : 30.5f, last = ( a > b ) ? 50.5f : 39.5f;
    vf_near( s.v, ( fis::som == m ) ? first : ( ( fis::lom == m ) ? last : 0.5f*( first + last ) ), 1e-2, "abscissa of the maximum" );
    vf_reach( "end" );
}
HARNESS( h_som1 ) { peak( fis::som ); }
HARNESS( h_lom1 ) { peak( fis::lom ); }
HARNESS( h_mom1 ) { peak( fis::mom ); }
/* the area on both sides of the bisector differs by less than its own column */
static float area( float a, float b, float x ) { const float j = mx( a, b ); return a*lim( x - 10.0f, 0.0f, 20.0f ) + j*lim( x - 30.0f, 0.0f, 10.0f ) + b*lim( x - 40.0f, 0.0f, 40.0f ); }
HARNESS( h_bis )
{
    mam s; s.go( fis::bisector, fis::FIS_MIN, fis::FIS_MAX, false, 0.25f );
    const float a = s.g[ 0 ], b = s.g[ 1 ], T = area( a, b, 100.0f );
    vf_assert( area( a, b, s.v + 0.5f ) >= 0.5f*T - 0.01f, "half of the area lies up to the column of the bisector" );
    vf_assert( area( a, b, s.v - 0.5f ) <= 0.5f*T + 0.01f, "and no more than half lies below it" );
    vf_reach( "end" );
}
/* the stored region is the aggregated one */
static void region( fis::paramValue imp, fis::paramValue agg )
{
    mam s; float x[ 100 ], y[ 100 ];
    vf_assert( !s.o[ 0 ].storeAggregatedRegion( x, y ), "an output without a system is refused" );
    s.init( fis::Mamdani, RA, 2, 1, 0.0625f );
    s.h[ 0 ] = in( "h", 0, 0.0625f, 1.0f ); s.h[ 1 ] = in( "h", 1, 0.0625f, 1.0f );
    for ( int k = 0 ; k < 2 ; ++k ) { s.ok = s.f.setupOutputMF( y0, (fis::tag)k, fis::constantmf, &s.h[ k ] ) && s.ok; }
    const float lo = in( "lo", 0, -100.0f, 100.0f ), w = in( "w", 0, 0.5f, 100.0f );
    s.ok = s.f.setupOutput( y0, lo, lo + w ) && s.f.setParameter( fis::FIS_Implication, imp ) && s.f.setParameter( fis::FIS_Aggregation, agg ) && s.ok;
    vf_assert( !s.o[ 0 ].storeAggregatedRegion( x, y, 99 ) && !s.o[ 0 ].storeAggregatedRegion( nullptr, y, 100 ) && !s.o[ 0 ].storeAggregatedRegion( x, nullptr, 100 ) && s.o[ 0 ].storeAggregatedRegion( x, y ), "room is required for every point" );
    s.run();
    vf_assert( s.ok, "evaluated" );
    const float a = ( fis::FIS_MIN == imp ) ? mn( s.g[ 0 ], s.h[ 0 ] ) : s.g[ 0 ]*s.h[ 0 ], b = ( fis::FIS_MIN == imp ) ? mn( s.g[ 1 ], s.h[ 1 ] ) : s.g[ 1 ]*s.h[ 1 ];
    for ( int k = 0 ; k < 100 ; k += 33 ) {
        vf_near( x[ k ], lo + w*( (float)k + 0.5f )/100.0f, 1e-3, "abscissa at the middle of its column" );
        vf_near( y[ k ], joined( agg, a, b ), 1e-3, "aggregated grade" );
    }
    vf_reach( "end" );
}
HARNESS( h_reg_min ) { region( fis::FIS_MIN, fis::FIS_MAX ); }
HARNESS( h_reg_prod ) { region( fis::FIS_PROD, fis::FIS_SUM ); }
/* two outputs, shared rules */
HARNESS( h_mam2 )
{
    sys s; s.init( fis::Mamdani, RB, 3, 2, 0.25f ); float p[ 3 ][ 2 ] = { { 0.0f, 50.0f }, { 50.0f, 100.0f }, { 20.0f, 60.0f } };
    for ( int k = 0 ; k < 3 ; ++k ) { s.ok = s.f.setupOutputMF( ( k < 2 ) ? y0 : y1, (fis::tag)k, fis::rectmf, p[ k ] ) && s.ok; }
    s.ok = s.f.setupOutput( y0, 0.0f, 100.0f ) && s.f.setupOutput( y1, 0.0f, 100.0f ) && s.ok;
    s.run(); float v[ 2 ];
    vf_assert( s.ok && s.f.getOutput( y0, v[ 0 ] ) && s.f.getOutput( y1, v[ 1 ] ), "evaluated" );
    const float a = mn( s.g[ 0 ], s.g[ 1 ] ), b = mx( 1.0f - s.g[ 0 ], s.g[ 1 ] );
    vf_near( v[ 0 ]*( a + b ), 25.0f*a + 75.0f*b, 1e-2, "first output" );
    vf_near( v[ 1 ], 40.0f, 1e-2, "second output" );
    vf_reach( "end" );
}
/* the wrapper that owns its storage behaves like the system it wraps */
HARNESS( h_wrap )
{
    fis::system<fis::Sugeno, 2, 1, 2, 3, 2> f( RA ); fis::instance q; fis::input i[ 2 ]; fis::output o[ 1 ]; fis::mf mi[ 2 ], mo[ 3 ]; float w[ 2 ], g[ 2 ], c[ 2 ], u[ 2 ];
    bool ok = f.setup() && q.setup( fis::Sugeno, i, 2, o, 1, mi, 2, mo, 3, RA, 2, w );
    for ( int k = 0 ; k < 2 ; ++k ) {
        g[ k ] = in( "g", k, 0.125f, 1.0f ); c[ k ] = in( "c", k, -50.0f, 50.0f ); u[ k ] = in( "u", k, -9.0f, 9.0f );
        ok = f.setupInput( (fis::tag)k, -10.0f, 10.0f ) && f.setupInputMF( (fis::tag)k, (fis::tag)k, fis::constantmf, &g[ k ] ) && f.setupOutputMF( y0, (fis::tag)k, fis::constantmf, &c[ k ] ) && f.setInput( (fis::tag)k, u[ k ] ) && ok;
    }
    ok = f.setupOutput( y0, -100.0f, 100.0f ) && ok;
    ok = f.fuzzify() && f.inference() && f.deFuzzify() && ok; float v = 0.0f;
    vf_assert( ok && f.getOutput( y0, v ), "evaluated" );
    vf_near( v, ( g[ 0 ]*c[ 0 ] + g[ 1 ]*c[ 1 ] )/( g[ 0 ] + g[ 1 ] ), 1e-3, "average" );
    vf_assert( ( f[ y0 ] == v ) && !f.getOutput( 1, v ) && ( 100U == f.getNumberOfPoints() ) && f.setDeFuzzMethod( fis::wtsum ) && !f.setDeFuzzMethod( fis::centroid ), "reading" );
    vf_reach( "end" );
}
