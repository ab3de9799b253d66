/* C14: the RMS estimator is the documented three-stage filter: low-pass of the moving mean of the root of the exponentially weighted mean square */
#include <qlibs.h>
#include "vf.h"
using namespace qlibs;
#ifdef VF_THOROUGH
#define NS 5
#else
#define NS 4
#endif
static float fin( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( ( x > -1.0e3f ) && ( x < 1.0e3f ) ); return x; }
template<int N> struct model {
    float l, a, m, w, h[ N ], y; bool first;
    void start( float L, float A ) { l = L; a = A; first = true; }
    float step( float x ) {
        const float x2 = x*x;
        if ( first ) { m = x2; w = 1.0f; }
        w = l*w + 1.0f;
        m = ( 1.0f - 1.0f/w )*m + x2/w;
        const float r = ffmath::sqrt( m );
        for ( int i = N - 1 ; i > 0 ; --i ) { h[ i ] = first ? r : h[ i - 1 ]; }
        h[ 0 ] = r;
        float s = 0.0f; for ( int i = 0 ; i < N ; ++i ) { s += h[ i ]; }
        s /= static_cast<float>( N );
        y = first ? s : ( s + a*( y - s ) );
        first = false;
        return y;
    }
};
template<int N> static void law( bool custom )
{
    rms f; float w[ N ]; model<N> m;
    vf_assert( f.setup( w ), "setup" );
    float l = 0.99f, a = 0.75f;
    if ( custom ) {
        l = vf_nd_f32( "l", 0 ); a = vf_nd_f32( "l", 1 );
        vf_assume( ( l > 0.0009765625f ) && ( l <= 1.0f ) && ( a > 0.0009765625f ) && ( a < 0.9990234375f ) );
        vf_assert( f.setParams( l, a ), "valid parameters accepted" );
    }
    m.start( l, a );
    for ( int k = 0 ; k < NS ; ++k ) {
        const float x = fin( "x", k ), o = f.update( x );
        vf_observe( "o", k, o );
        vf_near( o, m.step( x ), 1e-2, "three-stage RMS law" );
    }
    vf_reach( "end" );
}
HARNESS( h_law1 ) { law<1>( false ); }
HARNESS( h_law2 ) { law<2>( false ); }
HARNESS( h_law3 ) { law<3>( false ); }
HARNESS( h_par1 ) { law<1>( true ); }
HARNESS( h_par2 ) { law<2>( true ); }
HARNESS( h_par3 ) { law<3>( true ); }
/* a change of parameters in operation applies to the following samples and keeps the state */
HARNESS( h_change )
{
    rms f; float w[ 2 ]; model<2> m;
    vf_assert( f.setup( w ), "setup" );
    m.start( 0.99f, 0.75f );
    for ( int k = 0 ; k < 2 ; ++k ) { const float x = fin( "x", k ); vf_near( f.update( x ), m.step( x ), 1e-2, "three-stage RMS law" ); }
    const float l = vf_nd_f32( "l", 0 ), a = vf_nd_f32( "l", 1 );
    vf_assume( ( l > -2.0f ) && ( l < 2.0f ) && ( a > -2.0f ) && ( a < 2.0f ) );
    const bool ok = ( l > 0.0f ) && ( l <= 1.0f ) && ( a > 0.0f ) && ( a < 1.0f );
    vf_assert( f.setParams( l, a ) == ok, "parameters are accepted exactly in their range" );
    if ( ok ) { m.l = l; m.a = a; }
    for ( int k = 2 ; k < 4 ; ++k ) { const float x = fin( "x", k ); vf_near( f.update( x ), m.step( x ), 1e-2, "new parameters apply, refused ones do not" ); }
    vf_reach( "end" );
}
/* setting up again restarts the estimation with the default parameters */
HARNESS( h_again )
{
    rms f; float w[ 2 ]; model<2> m;
    vf_assert( f.setup( w ), "setup" );
    (void)f.setParams( 0.5f, 0.25f );
    for ( int k = 0 ; k < 2 ; ++k ) { (void)f.update( fin( "v", k ) ); }
    vf_assert( f.setup( w ), "setup" );
    m.start( 0.99f, 0.75f );
    for ( int k = 0 ; k < 3 ; ++k ) { const float x = fin( "x", k ); vf_near( f.update( x ), m.step( x ), 1e-2, "setup restarts the estimation" ); }
    vf_reach( "end" );
}
HARNESS( h_accept )
{
    rms f; float w[ 3 ];
    const size_t n = vf_nd_u8( "n", 0 ); vf_assume( n <= 3U );
    float * const p = vf_nd_b( "null", 0 ) ? nullptr : w;
    const float l = vf_nd_f32( "l", 0 ), a = vf_nd_f32( "l", 1 );
    vf_assert( f.setup( p, n ) == ( ( nullptr != p ) && ( n > 0U ) ), "setup needs a window" );
    vf_assert( f.setParams( l, a ) == ( ( l > 0.0f ) && ( l <= 1.0f ) && ( a > 0.0f ) && ( a < 1.0f ) ), "parameters are accepted exactly in their range" );
    vf_reach( "end" );
}
HARNESS( h_constant )
{
    rms f; float w[ 3 ]; const float c = fin( "x", 0 );
    vf_assert( f.setup( w ), "setup" );
    for ( int k = 0 ; k < 3 ; ++k ) {
        const float o = f.update( vf_nd_b( "sign", k ) ? c : -c );
        vf_assert( ( o >= ( ( ( c < 0.0f ) ? -c : c )*0.999f - 1e-2f ) ) && ( o <= ( ( ( c < 0.0f ) ? -c : c )*1.001f + 1e-2f ) ), "a signal of constant magnitude has that RMS" );
    }
    vf_reach( "end" );
}
HARNESS( h_nonneg )
{
    rms f; float w[ 2 ];
    vf_assert( f.setup( w ), "setup" );
    for ( int k = 0 ; k < 3 ; ++k ) { vf_assert( f.update( fin( "x", k ) ) >= -1e-3f, "an RMS is never negative" ); }
    vf_reach( "end" );
}
