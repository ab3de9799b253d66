/* C10: a discrete transfer function evaluates its difference equation
 *   a0*y(k) = sum b_i*u(k-i) - sum_{i>=1} a_i*y(k-i)
 * behind an optional input delay and an output saturation */
#include <qlibs.h>
#include <cfloat>
#include "vf.h"
using namespace qlibs;
#ifdef VF_THOROUGH
#define NS 12
#else
#define NS 8
#endif
static float nd( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( ( x > -1.0e3f ) && ( x < 1.0e3f ) ); return x; }
static float nz( const char *n, int i ) { float x = nd( n, i ); vf_assume( ( x > 0.0009765625f ) || ( x < -0.0009765625f ) ); return x; }
static float clampf( float x, float lo, float hi ) { return ( x > hi ) ? hi : ( ( x < lo ) ? lo : x ); }
template<int NB, int NA> struct sys {
    float num[ NB ], den[ NA ], x[ ( NA > NB ) ? NA : NB ];
    float b[ NB ], a[ NA ];
    void make( void ) {
        for ( int i = 0 ; i < NB ; ++i ) { num[ i ] = b[ i ] = nd( "b", i ); }
        den[ 0 ] = a[ 0 ] = nz( "a", 0 );
        for ( int i = 1 ; i < NA ; ++i ) { den[ i ] = a[ i ] = nd( "a", i ); }
    }
};
/* u: inputs, y: unsaturated outputs so far */
template<int NB, int NA> static float diff( const sys<NB,NA> &s, const float *u, const float *y, int k )
{
    float acc = 0.0f;
    for ( int i = 0 ; ( i < NB ) && ( i <= k ) ; ++i ) { acc += s.b[ i ]*u[ k - i ]; }
    for ( int i = 1 ; ( i < NA ) && ( i <= k ) ; ++i ) { acc -= s.a[ i ]*y[ k - i ]; }
    return acc/s.a[ 0 ];
}
template<int NB, int NA> static void law( void )
{
    sys<NB,NA> s; s.make();
    discreteSystem g( s.num, s.den, s.x, NB, NA );
    float u[ NS ], y[ NS ];
    vf_assert( g.isInitialized() && ( LTISYS_TYPE_DISCRETE == g.getType() ), "a valid system is initialised" );
    for ( int k = 0 ; k < NS ; ++k ) {
        u[ k ] = nd( "u", k );
        const float o = g.excite( u[ k ] );
        y[ k ] = diff( s, u, y, k );
        vf_observe( "o", k, o );
        vf_near( o, clampf( y[ k ], -FLT_MAX, FLT_MAX ), 1e-2, "output satisfies the difference equation" );
    }
    for ( int i = 0 ; i < NB ; ++i ) { vf_near( s.num[ i ], s.b[ i ]/s.a[ 0 ], 1e-4, "numerator is normalised" ); }
    for ( int i = 0 ; i < NA ; ++i ) { vf_near( s.den[ i ], s.a[ i ]/s.a[ 0 ], 1e-4, "denominator is normalised" ); }
    vf_reach( "end" );
}
HARNESS( h_11 ) { law<1,1>(); }
HARNESS( h_21 ) { law<2,1>(); }
HARNESS( h_12 ) { law<1,2>(); }
HARNESS( h_22 ) { law<2,2>(); }
HARNESS( h_13 ) { law<1,3>(); }
HARNESS( h_23 ) { law<2,3>(); }
HARNESS( h_33 ) { law<3,3>(); }
HARNESS( h_42 ) { law<4,2>(); }
HARNESS( h_14 ) { law<1,4>(); }
HARNESS( h_44 ) { law<4,4>(); }
/* every way to build the same system gives the same response */
HARNESS( h_build )
{
    sys<3,2> s; s.make();
    discreteTF<3,2> tf( s.b, s.a ), tf2( s.b, s.a );
    float num2[ 3 ], den2[ 2 ], num3[ 3 ], den3[ 2 ], x2[ 3 ], x3[ 3 ];
    for ( int i = 0 ; i < 3 ; ++i ) { num2[ i ] = num3[ i ] = s.b[ i ]; x2[ i ] = nd( "x", i ); x3[ i ] = nd( "z", i ); }
    for ( int i = 0 ; i < 2 ; ++i ) { den2[ i ] = den3[ i ] = s.a[ i ]; }
    discreteSystem g1( tf ), g2( num2, den2, x2 ), g3( s.num, s.den, s.x, 3U, 2U ), g4( s.num, s.den, s.x, 0U, 0U );
    vf_assert( g1.isInitialized() && g2.isInitialized() && g3.isInitialized(), "initialised" );
    vf_assert( g4.setup( tf2 ), "transfer function accepted" );
    for ( int k = 0 ; k < 4 ; ++k ) {
        const float u = nd( "u", k );
        const float y1 = g1.excite( u ), y2 = g2.excite( u ), y3 = g3.excite( u ), y4 = g4.excite( u );
        vf_near( y1, y3, 1e-2, "transfer-function object" );
        vf_near( y2, y3, 1e-2, "array references; supplied states start at zero" );
        vf_near( y4, y3, 1e-2, "set up later" );
    }
    discreteSystem g5( num3, den3, x3 );
    vf_assert( g5.isInitialized(), "initialised" );
    vf_reach( "end" );
}
/* setting zero states restarts the response, and given states are the past of the direct form */
HARNESS( h_states )
{
    sys<3,3> s; s.make();
    discreteSystem g( s.num, s.den, s.x, 3U, 3U );
    (void)g.excite( nd( "v", 0 ) ); (void)g.excite( nd( "v", 1 ) ); (void)g.excite( nd( "v", 2 ) );
    const bool zero = vf_nd_b( "zero", 0 );
    float xi[ 3 ]; for ( int i = 0 ; i < 3 ; ++i ) { xi[ i ] = nd( "xi", i ); }
    vf_assert( g.setInitStates( zero ? nullptr : xi ), "states accepted" );
    float w[ 3 ]; for ( int i = 0 ; i < 3 ; ++i ) { w[ i ] = zero ? 0.0f : xi[ i ]; }
    const float a1 = s.a[ 1 ]/s.a[ 0 ], a2 = s.a[ 2 ]/s.a[ 0 ];
    const float b0 = s.b[ 0 ]/s.a[ 0 ], b1 = s.b[ 1 ]/s.a[ 0 ], b2 = s.b[ 2 ]/s.a[ 0 ];
    for ( int k = 0 ; k < 3 ; ++k ) {
        const float u = nd( "u", k );
        const float o = g.excite( u );
        const float wk = u - a1*w[ 0 ] - a2*w[ 1 ];
        const float y = b0*wk + b1*w[ 0 ] + b2*w[ 1 ];
        w[ 1 ] = w[ 0 ]; w[ 0 ] = wk;
        vf_observe( "o", k, o );
        vf_near( o, clampf( y, -FLT_MAX, FLT_MAX ), 1e-2, "response from the given states" );
    }
    vf_reach( "end" );
}
/* output saturation clamps what is reported and nothing else */
HARNESS( h_saturation )
{
    sys<2,2> s; s.make();
    discreteSystem g( s.num, s.den, s.x, 2U, 2U );
    const float lo = nd( "lo", 0 ), hi = nd( "hi", 0 );
    vf_assert( g.setSaturation( lo, hi ) == ( lo < hi ), "limits accepted iff the maximum is above the minimum" );
    float u[ 4 ], y[ 4 ];
    for ( int k = 0 ; k < 4 ; ++k ) {
        u[ k ] = nd( "u", k );
        const float o = g.excite( u[ k ] );
        y[ k ] = diff( s, u, y, k );
        vf_observe( "o", k, o );
        if ( lo < hi ) { vf_assert( ( o >= lo ) && ( o <= hi ), "output within the limits" ); }
        vf_near( o, clampf( y[ k ], ( lo < hi ) ? lo : -FLT_MAX, ( lo < hi ) ? hi : FLT_MAX ), 1e-2, "saturated output of the difference equation" );
    }
    vf_reach( "end" );
}
/* input delay */
template<int ND> static void delayed( void )
{
    sys<2,2> s; s.make();
    float w[ ND ], init = nd( "init", 0 );
    discreteSystem g( s.num, s.den, s.x, 2U, 2U );
    vf_assert( g.setDelay( w, ND, init ), "delay accepted" );
    vf_assert( g.isInitialized(), "still initialised" );
    float u[ 5 ], y[ 5 ];
    for ( int k = 0 ; k < 5 ; ++k ) {
        const float in = nd( "u", k );
        u[ k ] = in;
        float v[ 5 ];
        for ( int j = 0 ; j <= k ; ++j ) { v[ j ] = ( j >= ( ND - 1 ) ) ? u[ j - ( ND - 1 ) ] : init; }
        const float o = g.excite( in );
        y[ k ] = diff( s, v, y, k );
        vf_observe( "o", k, o );
        vf_near( o, clampf( y[ k ], -FLT_MAX, FLT_MAX ), 1e-2, "the input reaches the system n-1 samples later" );
    }
    vf_reach( "end" );
}
HARNESS( h_delay1 ) { delayed<1>(); }
HARNESS( h_delay2 ) { delayed<2>(); }
HARNESS( h_delay4 ) { delayed<4>(); }
/* stand-alone transport delay */
template<int N> static void transport( void )
{
    const float init = nd( "init", 0 );
    transportDelay<N> d( init );
    float u[ 2*N + 3 ];
    for ( int k = 0 ; k < ( 2*N + 3 ) ; ++k ) {
        u[ k ] = nd( "u", k );
        const float o = d( u[ k ] );
        vf_assert( o == ( ( k >= N ) ? u[ k - N ] : init ), "transport delay of exactly N samples" );
    }
    vf_reach( "end" );
}
HARNESS( h_transport ) { transport<1>(); transport<2>(); transport<3>(); transport<5>(); }
/* FIR window evaluation */
template<int N> static void fir( void )
{
    float w[ N ], c[ N ], old[ N ];
    for ( int i = 0 ; i < N ; ++i ) { w[ i ] = old[ i ] = nd( "w", i ); c[ i ] = nd( "c", i ); }
    const bool coef = vf_nd_b( "coef", 0 );
    const float x = nd( "x", 0 );
    const float y = discreteSystem::updateFIR( w, N, x, coef ? c : nullptr );
    float want = ( coef ? c[ 0 ] : 1.0f )*x;
    for ( int i = 1 ; i < N ; ++i ) { want += ( coef ? c[ i ] : 1.0f )*old[ i - 1 ]; }
    vf_observe( "y", N, y );
    vf_near( y, want, 1e-2, "weighted sum of the updated window" );
    vf_assert( w[ 0 ] == x, "newest sample first" );
    for ( int i = 1 ; i < N ; ++i ) { vf_assert( w[ i ] == old[ i - 1 ], "window shifted by one" ); }
}
HARNESS( h_fir ) { fir<1>(); fir<2>(); fir<3>(); fir<5>(); vf_reach( "end" ); }
/* invalid systems are refused and produce nothing */
HARNESS( h_refuse )
{
    float num[ 2 ] = { 1.0f, 2.0f }, den[ 2 ] = { 1.0f, 0.5f }, x[ 2 ] = { 0.0f, 0.0f }, w[ 2 ];
    discreteSystem g( nullptr, den, x, 2U, 2U ), g2( num, nullptr, x, 2U, 2U ), g3( num, den, nullptr, 2U, 2U ), g4( num, den, x, 0U, 2U );
    vf_assert( !g.isInitialized() && !g2.isInitialized() && !g3.isInitialized() && !g4.isInitialized(), "invalid systems are refused" );
    vf_assert( LTISYS_TYPE_UNKNOWN == g.getType(), "type unknown" );
    vf_assert( !g.setDelay( w, 2U ) && !g.setSaturation( 0.0f, 1.0f ) && !g.setInitStates(), "options are refused" );
    const float u = nd( "u", 0 );
    vf_assert( ( 0.0f == g.excite( u ) ) && ( 0.0f == g3.excite( u ) ), "an invalid system outputs zero" );
    vf_reach( "end" );
}
HARNESS( h_fromtime )
{
    const float T = nd( "T", 0 ), dt = nd( "dt", 0 );
    vf_assume( ( T >= 0.0f ) && ( dt > 0.0009765625f ) );
    const size_t n = delayFromTime( T, dt );
    const float d = static_cast<float>( n )*dt - T;
    vf_assert( ( d <= ( 0.5f*dt ) ) && ( d > ( -0.5f*dt ) ), "nearest number of samples" );
    vf_reach( "end" );
}
