/* C22: numerical integration and derivation of sampled signals */
#include <qlibs.h>
#include "vf.h"
using namespace qlibs;
#ifdef VF_THOROUGH
#define NS 10
#else
#define NS 6
#endif
static float nd( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( ( x > -1.0e4f ) && ( x < 1.0e4f ) ); return x; }
static float step_of( void ) { const float dt = nd( "dt", 0 ); vf_assume( dt > 0.0009765625f ); return dt; }
/* each rule against its textbook formula, with optional hold of the history at every step */
static void integ( int method )
{
    float x = nd( "x0", 0 ), s1 = nd( "x0", 1 ), s2 = nd( "x0", 2 );
    nState n( x, s1, s2 );
    const float dt = step_of();
    if ( method >= 0 ) { n.setIntegrationMethod( static_cast<integrationMethod>( method ) ); }
    vf_assert( n() == x, "initial value" );
    for ( int k = 0 ; k < NS ; ++k ) {
        const float s = nd( "s", k );
        const bool up = vf_nd_b( "up", k );
        const float o = ( k == 0 ) && up ? n.integrate( s, dt ) : n.integrate( s, dt, up );
        float d;
        if ( INTEGRATION_RECTANGULAR == method ) { d = s*dt; }
        else if ( INTEGRATION_SIMPSON == method ) { d = ( s + 4.0f*s1 + s2 )*dt/6.0f; }
        else if ( INTEGRATION_QUADRATIC == method ) { d = ( 5.0f*s + 8.0f*s1 - s2 )*dt/12.0f; }
        else { d = ( s + s1 )*dt/2.0f; }
        x += d;
        if ( up ) { s2 = s1; s1 = s; }
        vf_observe( "o", k, o );
        vf_near( o, x, 1e-2, "integration follows the selected rule" );
        vf_assert( n() == o, "the state holds the integral" );
    }
    vf_reach( "end" );
}
HARNESS( h_int_default ) { integ( -1 ); }
HARNESS( h_int_rect ) { integ( INTEGRATION_RECTANGULAR ); }
HARNESS( h_int_trap ) { integ( INTEGRATION_TRAPEZOIDAL ); }
HARNESS( h_int_simp ) { integ( INTEGRATION_SIMPSON ); }
HARNESS( h_int_quad ) { integ( INTEGRATION_QUADRATIC ); }
static void deriv( int method )
{
    const float x0 = nd( "x0", 0 );
    float s1 = nd( "x0", 1 ), s2 = nd( "x0", 2 );
    nState n( x0, s1, s2 );
    const float dt = step_of();
    if ( method >= 0 ) { n.setDerivationMethod( static_cast<derivationMethod>( method ) ); }
    for ( int k = 0 ; k < NS ; ++k ) {
        const float s = nd( "s", k );
        const bool up = vf_nd_b( "up", k );
        const float o = ( k == 0 ) && up ? n.derive( s, dt ) : n.derive( s, dt, up );
        float d;
        if ( DERIVATION_BACKWARD == method ) { d = ( 3.0f*s - 4.0f*s1 + s2 )/( 2.0f*dt ); }
        else if ( DERIVATION_FORWARD == method ) { d = ( -3.0f*s2 + 4.0f*s1 - s )/( 2.0f*dt ); }
        else { d = ( s - s1 )/dt; }
        if ( up ) { s2 = s1; s1 = s; }
        vf_observe( "o", k, o );
        vf_near( o, d, 1e-2, "derivation follows the selected rule" );
        vf_assert( n() == x0, "derivation keeps the value of the state" );
    }
    vf_reach( "end" );
}
HARNESS( h_der_default ) { deriv( -1 ); }
HARNESS( h_der_2p ) { deriv( DERIVATION_2POINTS ); }
HARNESS( h_der_back ) { deriv( DERIVATION_BACKWARD ); }
HARNESS( h_der_forw ) { deriv( DERIVATION_FORWARD ); }
/* exactness on polynomial signals p0 + p1*t + p2*t^2 sampled every dt */
static float poly( float p0, float p1, float p2, float t ) { return p0 + p1*t + p2*t*t; }
static float prim( float p0, float p1, float p2, float t ) { return p0*t + p1*t*t/2.0f + p2*t*t*t/3.0f; }
HARNESS( h_exact )
{
    const float p0 = nd( "p", 0 ), p1 = nd( "p", 1 ), p2 = nd( "p", 2 ), dt = step_of();
    nState q( 0.0f, poly( p0, p1, p2, 0.0f ), poly( p0, p1, p2, -dt ) ), t( 0.0f, poly( p0, p1, 0.0f, 0.0f ), 0.0f );
    nState b( 0.0f, poly( p0, p1, p2, 0.0f ), poly( p0, p1, p2, -dt ) ), f( 0.0f, poly( p0, p1, p2, 0.0f ), poly( p0, p1, p2, -dt ) ), l( 0.0f, p0, 0.0f );
    q.setIntegrationMethod( INTEGRATION_QUADRATIC );
    b.setDerivationMethod( DERIVATION_BACKWARD );
    f.setDerivationMethod( DERIVATION_FORWARD );
    for ( int k = 1 ; k <= 3 ; ++k ) {
        const float tk = static_cast<float>( k )*dt;
        vf_near( q.integrate( poly( p0, p1, p2, tk ), dt ), prim( p0, p1, p2, tk ), 1e-2, "the parabolic rule is exact on quadratic signals" );
        vf_near( t.integrate( poly( p0, p1, 0.0f, tk ), dt ), prim( p0, p1, 0.0f, tk ), 1e-2, "the trapezoidal rule is exact on linear signals" );
        vf_near( b.derive( poly( p0, p1, p2, tk ), dt ), p1 + 2.0f*p2*tk, 1e-1, "the backward rule is exact on quadratic signals" );
        vf_near( f.derive( poly( p0, p1, p2, tk ), dt ), p1 + 2.0f*p2*( tk - 2.0f*dt ), 1e-1, "the forward rule is exact on quadratic signals" );
        vf_near( l.derive( poly( p0, p1, 0.0f, tk ), dt ), p1, 1e-1, "the two-point rule is exact on linear signals" );
    }
    vf_reach( "end" );
}
HARNESS( h_ops )
{
    const float x = nd( "x0", 0 ), r = nd( "r", 0 );
    vf_assume( ( r > 0.01f ) && ( x > 0.01f ) );
    nState n( 1.0f, 2.0f, 3.0f );
    n.init( x );
    vf_near( n*r, x*r, 1e-4, "product" ); vf_near( r*n, x*r, 1e-4, "product" );
    vf_near( n/r, x/r, 1e-4, "quotient" ); vf_near( r/n, r/x, 1e-4, "quotient" );
    vf_near( n + r, x + r, 1e-4, "sum" ); vf_near( r + n, x + r, 1e-4, "sum" );
    vf_near( n - r, x - r, 1e-4, "difference" ); vf_near( r - n, r - x, 1e-4, "difference" );
    const float s = nd( "s", 0 );
    vf_near( n.integrate( s, 1.0f ), x + s/2.0f, 1e-2, "init clears the history by default" );
    vf_reach( "end" );
}
