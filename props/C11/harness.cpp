/* C11: a continuous transfer function is the realisation
 *   x0' = u - a1*x0 - a2*x1 ...,  xi' = x(i-1),  y = sum (b_i - a_i*b0)*x_i + b0*u
 * advanced with the selected integration rule */
#include <qlibs.h>
#include <cfloat>
#include "vf.h"
using namespace qlibs;
#ifdef VF_THOROUGH
#define NS 5
#else
#define NS 4
#endif
static float nd( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( ( x > -1.0e3f ) && ( x < 1.0e3f ) ); return x; }
static float nz( const char *n, int i ) { float x = nd( n, i ); vf_assume( ( x > 0.0009765625f ) || ( x < -0.0009765625f ) ); return x; }
static float clampf( float x, float lo, float hi ) { return ( x > hi ) ? hi : ( ( x < lo ) ? lo : x ); }
template<int N> struct model {
    float a[ N + 1 ], b[ N + 1 ], num[ N + 1 ], den[ N + 1 ], dt;
    float x[ N ], p1[ N ], p2[ N ];
    int method;
    void make( void ) {
        for ( int i = 0 ; i <= N ; ++i ) { num[ i ] = b[ i ] = nd( "b", i ); }
        den[ 0 ] = a[ 0 ] = nz( "a", 0 );
        for ( int i = 1 ; i <= N ; ++i ) { den[ i ] = a[ i ] = nd( "a", i ); }
        dt = nd( "dt", 0 ); vf_assume( dt > 0.0009765625f );
        method = INTEGRATION_TRAPEZOIDAL;
        start( 0.0f );
    }
    void start( float v ) { for ( int i = 0 ; i < N ; ++i ) { x[ i ] = p1[ i ] = p2[ i ] = v; } }
    float inc( int i, float d ) {
        const float q1 = p1[ i ], q2 = p2[ i ];
        p2[ i ] = q1; p1[ i ] = d;
        if ( INTEGRATION_RECTANGULAR == method ) { return d*dt; }
        if ( INTEGRATION_TRAPEZOIDAL == method ) { return 0.5f*( d + q1 )*dt; }
        return ( d + 4.0f*q1 + q2 )*dt/6.0f;
    }
    float step( float u ) {
        float d[ N ], y;
        d[ 0 ] = u;
        for ( int i = 0 ; i < N ; ++i ) { d[ 0 ] -= ( a[ i + 1 ]/a[ 0 ] )*x[ i ]; }
        for ( int i = 1 ; i < N ; ++i ) { d[ i ] = x[ i - 1 ]; }
        y = ( b[ 0 ]/a[ 0 ] )*u;
        for ( int i = 0 ; i < N ; ++i ) {
            x[ i ] += inc( i, d[ i ] );
            y += ( b[ i + 1 ]/a[ 0 ] - ( a[ i + 1 ]/a[ 0 ] )*( b[ 0 ]/a[ 0 ] ) )*x[ i ];
        }
        return y;
    }
};
template<int N, int STEPS> static void law( int method )
{
    model<N> m; m.make();
    continuousStates<N> x;
    continuousSystem g( m.num, m.den, x, N, m.dt );
    vf_assert( g.isInitialized() && ( LTISYS_TYPE_CONTINUOUS == g.getType() ), "a valid system is initialised" );
    if ( method >= 0 ) {
        m.method = method;
        vf_assert( g.setIntegrationMethod( static_cast<integrationMethod>( method ) ), "documented integration method accepted" );
    }
    for ( int k = 0 ; k < STEPS ; ++k ) {
        const float u = nd( "u", k );
        const float o = g.excite( u );
        vf_observe( "o", k, o );
        vf_near( o, clampf( m.step( u ), -FLT_MAX, FLT_MAX ), 1e-2, "output of the documented realisation" );
    }
    vf_reach( "end" );
}
HARNESS( h_1 ) { law<1,NS + 1>( -1 ); }
HARNESS( h_1rect ) { law<1,NS>( INTEGRATION_RECTANGULAR ); }
HARNESS( h_1simp ) { law<1,NS>( INTEGRATION_SIMPSON ); }
HARNESS( h_2 ) { law<2,NS>( -1 ); }
HARNESS( h_2rect ) { law<2,NS>( INTEGRATION_RECTANGULAR ); }
HARNESS( h_2simp ) { law<2,NS>( INTEGRATION_SIMPSON ); }
HARNESS( h_3 ) { law<3,NS - 1>( -1 ); }
HARNESS( h_4 ) { law<4,3>( INTEGRATION_TRAPEZOIDAL ); }
/* two steps from arbitrary states and arbitrary state histories: covers every history of the system */
template<int N> static void any( int method )
{
    model<N> m; m.make();
    continuousStates<N> x;
    continuousSystem g( m.num, m.den, x, N, m.dt );
    if ( method >= 0 ) { m.method = method; vf_assert( g.setIntegrationMethod( static_cast<integrationMethod>( method ) ), "documented integration method accepted" ); }
    for ( int i = 0 ; i < N ; ++i ) {
        m.x[ i ] = nd( "x", i ); m.p1[ i ] = nd( "p", i ); m.p2[ i ] = nd( "q", i );
        x[ i ].init( m.x[ i ], m.p1[ i ], m.p2[ i ] );
    }
    for ( int k = 0 ; k < 3 ; ++k ) {
        const float u = nd( "u", k );
        const float o = g.excite( u );
        vf_observe( "o", k, o );
        vf_near( o, clampf( m.step( u ), -FLT_MAX, FLT_MAX ), 1e-2, "output of the documented realisation from any state" );
    }
    vf_reach( "end" );
}
HARNESS( h_any1 ) { any<1>( -1 ); }
HARNESS( h_any2 ) { any<2>( INTEGRATION_SIMPSON ); }
HARNESS( h_any3 ) { any<3>( INTEGRATION_RECTANGULAR ); }
HARNESS( h_any3s ) { any<3>( INTEGRATION_SIMPSON ); }
HARNESS( h_any4 ) { any<4>( INTEGRATION_TRAPEZOIDAL ); }
HARNESS( h_any5 ) { any<5>( INTEGRATION_SIMPSON ); }
HARNESS( h_any6 ) { any<6>( -1 ); }
/* all constructors and setups are equivalent, supplied states start at zero */
HARNESS( h_build )
{
    model<2> m; m.make();
    continuousTF<2> tf( m.b, m.a ), tf2( m.b, m.a );
    float num2[ 3 ], den2[ 3 ], num3[ 3 ], den3[ 3 ];
    for ( int i = 0 ; i < 3 ; ++i ) { num2[ i ] = num3[ i ] = m.b[ i ]; den2[ i ] = den3[ i ] = m.a[ i ]; }
    continuousStates<2> x1, x2, x3;
    x1[ 0 ].init( nd( "s", 0 ), nd( "s", 1 ), nd( "s", 2 ) );
    continuousSystem g1( tf, m.dt ), g2( num2, den2, x1, m.dt ), g3( num3, den3, x2, 2U, m.dt ), g4( nullptr, nullptr, nullptr, 0U, m.dt );
    vf_assert( !g4.isInitialized(), "not yet" );
    vf_assert( g4.setup( tf2, m.dt ), "accepted" );
    for ( int k = 0 ; k < 3 ; ++k ) {
        const float u = nd( "u", k );
        const float y1 = g1.excite( u ), y2 = g2.excite( u ), y3 = g3.excite( u ), y4 = g4.excite( u );
        vf_near( y1, y3, 1e-2, "transfer-function object" );
        vf_near( y2, y3, 1e-2, "array references; supplied states start at zero" );
        vf_near( y4, y3, 1e-2, "set up later" );
    }
    vf_reach( "end" );
}
/* initial states: zero restarts, given values are taken element by element */
HARNESS( h_states )
{
    model<2> m; m.make();
    continuousStates<2> x;
    continuousSystem g( m.num, m.den, x, 2U, m.dt );
    (void)g.excite( nd( "v", 0 ) ); (void)g.excite( nd( "v", 1 ) );
    float xi[ 2 ] = { nd( "xi", 0 ), nd( "xi", 1 ) };
    const bool zero = vf_nd_b( "zero", 0 );
    vf_assert( g.setInitStates( zero ? nullptr : xi ), "states accepted" );
    for ( int i = 0 ; i < 2 ; ++i ) { vf_assert( x[ i ]() == ( zero ? 0.0f : xi[ i ] ), "each state takes its own initial value" ); }
    if ( zero ) {
        for ( int k = 0 ; k < 3 ; ++k ) {
            const float u = nd( "u", k );
            const float o = g.excite( u );
            vf_near( o, clampf( m.step( u ), -FLT_MAX, FLT_MAX ), 1e-2, "zero states restart the response" );
        }
    }
    vf_reach( "end" );
}
HARNESS( h_saturation )
{
    model<2> m; m.make();
    continuousStates<2> x;
    continuousSystem g( m.num, m.den, x, 2U, m.dt );
    const float lo = nd( "lo", 0 ), hi = nd( "hi", 0 );
    const bool ok = g.setSaturation( lo, hi );
    vf_assert( ok == ( lo < hi ), "limits accepted iff the maximum is above the minimum" );
    for ( int k = 0 ; k < 3 ; ++k ) {
        const float u = nd( "u", k );
        const float o = g.excite( u );
        vf_observe( "o", k, o );
        if ( lo < hi ) { vf_assert( ( o >= lo ) && ( o <= hi ), "output within the limits" ); }
        vf_near( o, clampf( m.step( u ), ( lo < hi ) ? lo : -FLT_MAX, ( lo < hi ) ? hi : FLT_MAX ), 1e-2, "only the reported output is saturated" );
    }
    vf_reach( "end" );
}
template<int ND> static void delayed( void )
{
    model<1> m; m.make();
    continuousStates<1> x;
    float w[ ND ], u[ 5 ];
    const float init = nd( "init", 0 );
    continuousSystem g( m.num, m.den, x, 1U, m.dt );
    vf_assert( g.setDelay( w, ND, init ), "delay accepted" );
    for ( int k = 0 ; k < 5 ; ++k ) {
        u[ k ] = nd( "u", k );
        const float o = g.excite( u[ k ] );
        vf_near( o, clampf( m.step( ( k >= ( ND - 1 ) ) ? u[ k - ( ND - 1 ) ] : init ), -FLT_MAX, FLT_MAX ), 1e-2, "the input reaches the system n-1 samples later" );
    }
    vf_reach( "end" );
}
HARNESS( h_delay1 ) { delayed<1>(); }
HARNESS( h_delay3 ) { delayed<3>(); }
/* equilibrium: a constant input whose output equals the DC gain stays there (independent of the realisation) */
HARNESS( h_refuse )
{
    float num[ 2 ] = { 0.0f, 2.0f }, den[ 2 ] = { 1.0f, 0.5f }, w[ 2 ];
    continuousStates<1> x;
    continuousSystem g( nullptr, den, x, 1U, 0.1f ), g2( num, nullptr, x, 1U, 0.1f ), g3( num, den, nullptr, 1U, 0.1f ), g4( num, den, x, 0U, 0.1f );
    vf_assert( !g.isInitialized() && !g2.isInitialized() && !g3.isInitialized() && !g4.isInitialized(), "invalid systems are refused" );
    vf_assert( LTISYS_TYPE_UNKNOWN == g.getType(), "type unknown" );
    vf_assert( !g.setDelay( w, 2U ) && !g.setSaturation( 0.0f, 1.0f ) && !g.setInitStates() && !g.setIntegrationMethod( INTEGRATION_SIMPSON ), "options are refused" );
    vf_assert( ( 0.0f == g.excite( nd( "u", 0 ) ) ) && ( 0.0f == g4.excite( nd( "u", 1 ) ) ), "an invalid system outputs zero" );
    vf_reach( "end" );
}
