/* C16: rules: firing strengths, acceptance and memory safety */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static float in( const char *n, int i, float lo, float hi ) { const float v = vf_nd_f32( n, i ); vf_assume( ( v >= lo ) && ( v <= hi ) ); return v; }
static float lim( float v ) { return ( v < 0.0f ) ? 0.0f : ( ( v > 1.0f ) ? 1.0f : v ); }
static float mn( float a, float b ) { return ( a < b ) ? a : b; }
static float mx( float a, float b ) { return ( a > b ) ? a : b; }
#define NS 3
struct sys {
    fis::instance f; fis::input i[ 2 ]; fis::output o[ 2 ]; fis::mf mi[ NS ], mo[ 2 ]; float w[ 4 ], g[ NS ], c[ 2 ]; bool ok;
    /* sets with constant, symbolic grades */
    void init( const fis::rules *r, size_t rules, size_t outs, bool limit = true ) {
        for ( int k = 0 ; k < 4 ; ++k ) { w[ k ] = 77.0f; }
        c[ 0 ] = 1.0f; c[ 1 ] = 2.0f;
        ok = f.setup( fis::Sugeno, i, 2, o, outs, mi, NS, mo, 2, r, rules, w );
        for ( int k = 0 ; k < NS ; ++k ) {
            g[ k ] = limit ? in( "g", k, 0.0f, 1.0f ) : vf_nd_f32( "g", k );
            ok = f.setupInputMF( ( k < 2 ) ? 0 : 1, (fis::tag)k, fis::constantmf, &g[ k ] ) && ok;
        }
        ok = f.setupOutputMF( 0, 0, fis::constantmf, &c[ 0 ] ) && f.setupOutputMF( (fis::tag)( outs - 1 ), 1, fis::constantmf, &c[ 1 ] ) && ok;
        ok = f.fuzzify() && ok;
    }
};
#define ANDOP( a, b ) ( ap ? ( a )*( b ) : mn( a, b ) )
#define OROP( a, b ) ( op ? ( ( a ) + ( b ) - ( a )*( b ) ) : mx( a, b ) )
enum { x0, x1 }; enum { s0, s1, s2 }; enum { y0, y1 }; enum { t0, t1 };
static void methods( sys &s, bool ap, bool op )
{
    if ( ap ) { s.ok = s.f.setParameter( fis::FIS_AND, fis::FIS_PROD ) && s.ok; }
    if ( op ) { s.ok = s.f.setParameter( fis::FIS_OR, fis::FIS_PROBOR ) && s.ok; }
}
/* one output; every connector, several rules in one set */
static void strength( bool ap, bool op )
{
    static const fis::rules R[] = { FIS_RULES_BEGIN
        IF x0 IS s0 THEN y0 IS t0 END
        IF x0 IS_NOT s1 AND x1 IS s2 THEN y0 IS t1 END
        IF x0 IS s0 OR x1 IS_NOT s2 THEN y0 IS t0 END
        IF x0 IS s1 OR x0 IS_NOT s0 AND x1 IS s2 THEN y0 IS_NOT t1 END
    FIS_RULES_END };
    sys s; s.init( R, 4, 1 ); methods( s, ap, op );
    vf_assert( s.ok, "configured" );
    vf_assert( s.f.inference(), "a complete set of rules is accepted" );
    const float a = s.g[ 0 ], b = s.g[ 1 ], c = s.g[ 2 ];
    vf_near( s.w[ 0 ], a, 1e-4, "single premise" );
    vf_near( s.w[ 1 ], ANDOP( 1.0f - b, c ), 1e-4, "negated premise and another" );
    vf_near( s.w[ 2 ], OROP( a, 1.0f - c ), 1e-4, "premise or a negated one" );
    vf_near( s.w[ 3 ], ANDOP( OROP( b, 1.0f - a ), c ), 1e-4, "three premises from left to right" );
    vf_reach( "end" );
}
HARNESS( h_min_max ) { strength( false, false ); }
HARNESS( h_prod_max ) { strength( true, false ); }
HARNESS( h_min_por ) { strength( false, true ); }
HARNESS( h_prod_por ) { strength( true, true ); }
/* two outputs, rules with one and two conclusions, weights */
HARNESS( h_outputs )
{
    static const fis::rules R[] = { FIS_RULES_BEGIN
        IF x0 IS s0 AND x1 IS s2 THEN y0 IS t0 AND y1 IS t1 END
        IF x0 IS s1 THEN y1 IS t1 END
        IF x0 IS s1 OR x1 IS s2 THEN y1 IS t1 AND y0 IS_NOT t0 END
    FIS_RULES_END };
    sys s; s.init( R, 3, 2 );
    vf_assert( s.ok && s.f.inference(), "a complete set of rules is accepted" );
    vf_near( s.w[ 0 ], mn( s.g[ 0 ], s.g[ 2 ] ), 1e-4, "first rule" );
    vf_near( s.w[ 1 ], s.g[ 1 ], 1e-4, "second rule" );
    vf_near( s.w[ 2 ], mx( s.g[ 1 ], s.g[ 2 ] ), 1e-4, "third rule" );
    float k[ 3 ]; for ( int j = 0 ; j < 3 ; ++j ) { k[ j ] = in( "k", j, -2.0f, 3.0f ); }
    vf_assert( s.f.setRuleWeights( k ) && s.f.inference() && !s.f.setRuleWeights( nullptr ), "weights are accepted" );
    vf_near( s.w[ 0 ], mn( s.g[ 0 ], s.g[ 2 ] )*lim( k[ 0 ] ), 1e-4, "first rule weighted" );
    vf_near( s.w[ 1 ], s.g[ 1 ]*lim( k[ 1 ] ), 1e-4, "second rule weighted" );
    vf_near( s.w[ 2 ], mx( s.g[ 1 ], s.g[ 2 ] )*lim( k[ 2 ] ), 1e-4, "third rule weighted" );
    vf_assert( ( 77.0f == s.w[ 3 ] ), "nothing else is written" );
    vf_reach( "end" );
}
/* any connectors, sets and negations: three premises */
HARNESS( h_any3 )
{
    fis::rules R[ 12 ] = { fis::Q_FIS_RULES_BEGIN, 0, 0, 0, 0, 0, 0, 0, 0, fis::Q_FIS_THEN, 0, 1 };
    fis::rules Q[ 13 ]; float v[ NS ]; bool isor[ 2 ]; int idx[ NS ]; bool neg[ NS ];
    for ( int k = 0 ; k < NS ; ++k ) {
        idx[ k ] = vf_nd_u8( "idx", k ); vf_assume( idx[ k ] < NS ); neg[ k ] = vf_nd_b( "neg", k );
        R[ 1 + 3*k ] = 0; R[ 2 + 3*k ] = (fis::rules)( neg[ k ] ? -( idx[ k ] + 1 ) : ( idx[ k ] + 1 ) );
        if ( k < 2 ) { isor[ k ] = vf_nd_b( "or", k ); R[ 3 + 3*k ] = isor[ k ] ? fis::Q_FIS_OR : fis::Q_FIS_AND; }
    }
    for ( int k = 0 ; k < 12 ; ++k ) { Q[ k ] = R[ k ]; } Q[ 12 ] = fis::Q_FIS_RULES_END;
    sys s; s.init( Q, 1, 1 );
    for ( int k = 0 ; k < NS ; ++k ) { const float y = ( 0 == idx[ k ] ) ? s.g[ 0 ] : ( ( 1 == idx[ k ] ) ? s.g[ 1 ] : s.g[ 2 ] ); v[ k ] = neg[ k ] ? 1.0f - y : y; }
    vf_assert( s.ok && s.f.inference(), "accepted" );
    float e = v[ 0 ];
    for ( int k = 0 ; k < 2 ; ++k ) { e = isor[ k ] ? mx( e, v[ k + 1 ] ) : mn( e, v[ k + 1 ] ); }
    vf_near( s.w[ 0 ], e, 1e-4, "premises combined from left to right with their connectors" );
    vf_reach( "end" );
}
/* strengths never leave [0,1], whatever the grades (bit-precise) */
HARNESS( h_unit )
{
    static const fis::rules R[] = { FIS_RULES_BEGIN IF x0 IS s0 AND x0 IS_NOT s1 OR x1 IS_NOT s2 THEN y0 IS t0 END FIS_RULES_END };
    const bool ap = vf_nd_b( "ap", 0 ), op = vf_nd_b( "op", 0 );
    sys s; s.init( R, 1, 1, false ); methods( s, ap, op );
    vf_assert( s.ok && s.f.inference() && ( s.w[ 0 ] >= 0.0f ) && ( s.w[ 0 ] <= 1.0f ), "within [0,1]" );
    vf_reach( "end" );
}
/* reference reading of a set of rules: BEGIN, then rules, then END */
static bool good( int io, int nio, int set, int ns ) { const int m = ( set < 0 ) ? -set : set; return ( io >= 0 ) && ( io < nio ) && ( m > 0 ) && ( m <= ns ); }
static bool wellformed( const fis::rules *r, int last, int rules, int outs )
{
    int i = 1, n = 0, state = 0; /* 0: premise, 1: conclusion */
    if ( fis::Q_FIS_RULES_BEGIN != r[ 0 ] ) { return false; }
    for ( int step = 0 ; step < 4 ; ++step ) {
        if ( ( i >= last ) || ( n == rules ) || ( fis::Q_FIS_RULES_END == r[ i ] ) ) { break; }
        if ( 0 == state ) {
            if ( !good( r[ i ], 2, r[ i + 1 ], NS ) || ( i + 2 > last ) ) { return false; }
            const int c = r[ i + 2 ];
            if ( fis::Q_FIS_THEN == c ) { state = 1; } else if ( ( fis::Q_FIS_AND != c ) && ( fis::Q_FIS_OR != c ) ) { return false; }
            i += 3;
        }
        else {
            if ( !good( r[ i ], outs, r[ i + 1 ], 2 ) || ( i + 2 > last ) ) { return false; }
            if ( ( outs > 1 ) && ( fis::Q_FIS_AND == r[ i + 2 ] ) ) { i += 3; } else { i += 2; ++n; state = 0; }
        }
    }
    return ( fis::Q_FIS_RULES_END == r[ i ] ) && ( n == rules );
}
template<int n> static void arbitrary( int rules, int outs )
{
    fis::rules q[ n ];
    for ( int k = 0 ; k < n - 1 ; ++k ) { q[ k ] = (fis::rules)vf_nd_u8( "r", k ); }
    q[ n - 1 ] = fis::Q_FIS_RULES_END;
    sys s; s.init( q, rules, outs );
    const bool e = wellformed( q, n - 1, rules, outs );
    vf_assert( s.f.inference() == e, "accepted exactly when it is a complete set of rules over existing tags" );
    vf_reach( "end" );
}
HARNESS( h_parse4 ) { arbitrary<4>( 1, 1 ); }
HARNESS( h_parse7 ) { arbitrary<7>( 1, 1 ); }
HARNESS( h_parse7o ) { arbitrary<7>( 1, 2 ); }
HARNESS( h_parse10 ) { arbitrary<10>( 1, 1 ); }
HARNESS( h_parse10o ) { arbitrary<10>( 1, 2 ); }
HARNESS( h_rules2 ) { arbitrary<7>( 2, 1 ); }
/* tags and parameters */
HARNESS( h_tags )
{
    static const fis::rules R[] = { FIS_RULES_BEGIN IF x0 IS s0 THEN y0 IS t0 END FIS_RULES_END };
    fis::instance f; fis::input i[ 2 ]; fis::output o[ 1 ]; fis::mf mi[ 3 ], mo[ 2 ]; float w[ 1 ]; const float c[ 1 ] = { 0.5f };
    const fis::tag t = (fis::tag)vf_nd_u8( "t", 0 ), m = (fis::tag)vf_nd_u8( "t", 1 );
    float v = 9.0f;
    vf_assert( !f.setupInput( t, 0.0f, 1.0f ) && !f.setupOutput( t, 0.0f, 1.0f ) && !f.setInput( t, 0.0f ) && !f.getOutput( t, v ) && !f.setupInputMF( t, m, fis::constantmf, c ) && !f.setupOutputMF( t, m, fis::constantmf, c ) && !f.fuzzify() && !f.inference() && !f.deFuzzify(), "nothing works before setup" );
    vf_assert( f.setup( fis::Mamdani, i, o, mi, mo, R, w ), "setup" );
    const bool oi = ( t >= 0 ) && ( t < 2 ), oo = ( 0 == t );
    vf_assert( f.setupInput( t, 0.0f, 1.0f ) == oi, "limits of an input" );
    vf_assert( f.setInput( t, 0.25f ) == oi, "value of an input" );
    vf_assert( f.setupOutput( t, 0.0f, 1.0f ) == oo, "limits of an output" );
    vf_assert( f.getOutput( t, v ) == oo, "value of an output" );
    if ( !oo ) { vf_assert( 9.0f == v, "an unknown output yields nothing" ); }
    const int s = vf_nd_u8( "shape", 0 ); vf_assume( s <= fis::FIS_NUM_MFS );
    vf_assert( f.setupInputMF( t, m, (fis::shapeMF)s, c ) == ( oi && ( m >= 0 ) && ( m < 3 ) && ( s < fis::FIS_NUM_MFS ) ), "set of an input" );
    vf_assert( f.setupOutputMF( t, m, (fis::shapeMF)s, c ) == ( oo && ( m >= 0 ) && ( m < 2 ) && ( s < fis::FIS_NUM_MFS ) ), "set of an output" );
    (void)f[ t ]; f << t; f << 1.0f; f << 1;
    vf_reach( "end" );
}
HARNESS( h_params )
{
    static const fis::rules R[] = { FIS_RULES_BEGIN IF x0 IS s0 THEN y0 IS t0 END FIS_RULES_END };
    fis::instance f; fis::input i[ 2 ]; fis::output o[ 1 ]; fis::mf mi[ 3 ], mo[ 2 ]; float w[ 1 ];
    const int t = vf_nd_u8( "t", 0 ); vf_assume( t < 3 );
    vf_assert( f.setup( (fis::type)t, i, o, mi, mo, R, w ), "setup" );
    const int p = vf_nd_u8( "p", 0 ), x = vf_nd_u8( "x", 0 ), d = vf_nd_u8( "d", 0 ); vf_assume( ( p <= 4 ) && ( x <= 4 ) && ( d <= fis::FIS_NUM_DEFUZZ ) );
    const bool mnp = ( fis::FIS_MIN == x ) || ( fis::FIS_PROD == x ), mxp = ( fis::FIS_MAX == x ) || ( fis::FIS_PROBOR == x );
    const bool e = ( fis::FIS_Implication == p ) ? mnp : ( ( fis::FIS_AND == p ) ? mnp : ( ( fis::FIS_OR == p ) ? mxp : ( ( fis::FIS_Aggregation == p ) ? ( mxp || ( fis::FIS_SUM == x ) ) : false ) ) );
    vf_assert( f.setParameter( (fis::parameter)p, (fis::paramValue)x ) == e, "only the documented operators are accepted" );
    const bool m = ( fis::Mamdani == t ) ? ( d <= fis::som ) : ( ( fis::Sugeno == t ) ? ( ( fis::wtaver == d ) || ( fis::wtsum == d ) ) : ( fis::wtaver == d ) );
    vf_assert( f.setDeFuzzMethod( (fis::deFuzzMethod)d ) == m, "only the methods of the type of system are accepted" );
    vf_reach( "end" );
}
HARNESS( h_setup )
{
    static const fis::rules R[] = { FIS_RULES_BEGIN IF x0 IS s0 THEN y0 IS t0 END FIS_RULES_END };
    fis::instance f; fis::input i[ 1 ]; fis::output o[ 1 ]; fis::mf mi[ 1 ], mo[ 1 ]; float w[ 1 ];
    bool b[ 10 ]; for ( int k = 0 ; k < 10 ; ++k ) { b[ k ] = vf_nd_b( "b", k ); }
    const int t = vf_nd_u8( "t", 0 ); vf_assume( t < 4 );
    const bool ok = f.setup( (fis::type)t, b[ 0 ] ? i : nullptr, b[ 1 ] ? 1 : 0, b[ 2 ] ? o : nullptr, b[ 3 ] ? 1 : 0, b[ 4 ] ? mi : nullptr, b[ 5 ] ? 1 : 0, b[ 6 ] ? mo : nullptr, b[ 7 ] ? 1 : 0, b[ 8 ] ? R : nullptr, b[ 9 ] ? 1 : 0, w );
    bool e = t < 3; for ( int k = 0 ; k < 10 ; ++k ) { e = e && b[ k ]; }
    vf_assert( ok == e, "accepted exactly when nothing is missing" );
    fis::instance g; vf_assert( g.setup( fis::Sugeno, i, 1, o, 1, mi, 1, mo, 1, R, 1 ) && !g.inference(), "no inference without room for the strengths" );
    vf_reach( "end" );
}
