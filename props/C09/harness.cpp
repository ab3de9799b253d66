/* C09: the PID output is the documented control law
 *   v = psi*r + Kc*e_b + Ki*Int[ e + c(-1) ] + Kd*LPF[ d e_c/dt ],  u = Sat( v ),  c = Kw*( u - v )
 * against an independent reference written from the documentation */
#include <qlibs.h>
#include "vf.h"
using namespace qlibs;
#ifdef VF_THOROUGH
#define NS 8
#else
#define NS 5
#endif
static float nd( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( ( x > -1.0e4f ) && ( x < 1.0e4f ) ); return x; }
static float clampf( float x, float lo, float hi ) { return ( x > hi ) ? hi : ( ( x < lo ) ? lo : x ); }
struct refPid {
    float kc, ki, kd, dt, b, c, lo, hi, eps, kw, kt, beta, man;
    float I, s1, e1, D, u1, us, m, bt1, th, del1;
    float dead( float e ) const { return ( ( ( e < 0.0f ) ? -e : e ) <= eps ) ? 0.0f : e; }
    float pid( float w, float y ) {
        const float e = dead( w - y ), eb = dead( b*w - y ), ec = dead( c*w - y );
        const float s = e + u1;
        I = I + 0.5f*( s + s1 )*dt; s1 = s;
        const float d = ( ec - e1 )/dt; e1 = ec;
        D = d + beta*( D - d );
        return kc*eb + ki*I + kd*D;
    }
    float finish( float v, bool automatic ) {
        const float bt = kt*man + kw*( us - m );
        m = m + 0.5f*( bt + bt1 )*dt; bt1 = bt;
        us = clampf( automatic ? v : m, lo, hi );
        u1 = kw*( us - v );
        return us;
    }
};
static void zero( refPid &r ) { r.I = r.s1 = r.e1 = r.D = r.u1 = r.us = r.m = r.bt1 = r.th = r.del1 = 0.0f; }
static void defaults( refPid &r, pidController &p )
{
    r.kc = nd( "kc", 0 ); r.ki = nd( "ki", 0 ); r.kd = nd( "kd", 0 ); r.dt = nd( "dt", 0 );
    vf_assume( r.dt > 0.0009765625f );
    r.b = 1.0f; r.c = 0.0f; r.lo = 0.0f; r.hi = 100.0f; r.eps = 1.17549435e-38f; r.kw = 1.0f; r.kt = 1.0f; r.beta = 0.98f; r.man = 0.0f;
    zero( r );
    vf_assume( p.setup( r.kc, r.ki, r.kd, r.dt ) );
}
static void wide( refPid &r, pidController &p )
{
    r.lo = nd( "lo", 0 ); r.hi = nd( "hi", 0 ); vf_assume( r.lo < r.hi );
    vf_assume( p.setSaturation( r.lo, r.hi ) );
}
/* default configuration, limits arbitrary */
HARNESS( h_default )
{
    pidController p; refPid r; defaults( r, p ); wide( r, p );
    for ( int k = 0 ; k < NS ; ++k ) {
        const float w = nd( "w", k ), y = nd( "y", k );
        const float u = p.control( w, y );
        const float v = r.finish( r.pid( w, y ), true );
        vf_observe( "u", k, u );
        vf_near( u, v, 1e-2, "default configuration follows the control law" );
    }
    vf_reach( "end" );
}
/* every option: weights, filter, anti-windup gain, dead band, automatic mode */
HARNESS( h_options )
{
    pidController p; refPid r; defaults( r, p ); wide( r, p );
    r.beta = nd( "beta", 0 ); vf_assume( r.beta >= 0.0f && r.beta < 1.0f );
    const float gb = nd( "gb", 0 ), gc = nd( "gc", 0 );
    r.b = clampf( gb, 0.0f, 1.0f ); r.c = clampf( gc, 0.0f, 1.0f );
    r.kw = nd( "kw", 0 ); r.kt = nd( "kt", 0 ); r.eps = nd( "eps", 0 ); vf_assume( r.eps > 0.0f );
    vf_assume( p.setDerivativeFilter( r.beta ) && p.setReferenceWeighting( gb, gc ) && p.setExtraGains( r.kw, r.kt ) && p.setEpsilon( r.eps ) );
    for ( int k = 0 ; k < 2 ; ++k ) {
        const float w = nd( "w", k ), y = nd( "y", k );
        const float u = p.control( w, y );
        const float v = r.finish( r.pid( w, y ), true );
        vf_observe( "u", k, u );
        vf_near( u, v, 1e-2, "options enter the control law as documented" );
    }
    vf_reach( "end" );
}
/* manual and automatic mode in any order; the loop keeps running in manual mode */
HARNESS( h_modes )
{
    pidController p; refPid r; defaults( r, p ); wide( r, p );
    r.man = nd( "man", 0 ); r.kw = nd( "kw", 0 ); r.kt = nd( "kt", 0 );
    vf_assume( p.setManualInput( r.man ) && p.setExtraGains( r.kw, r.kt ) );
    for ( int k = 0 ; k < NS ; ++k ) {
        const float w = nd( "w", k ), y = nd( "y", k );
        const bool a = vf_nd_b( "auto", k );
        vf_assume( p.setMode( a ? pidMode::PID_AUTOMATIC : pidMode::PID_MANUAL ) );
        const float u = p.control( w, y );
        const float v = r.finish( r.pid( w, y ), a );
        vf_observe( "u", k, u );
        vf_near( u, v, 1e-2, "manual and automatic outputs follow the documented law" );
    }
    vf_reach( "end" );
}
/* reverse action: every positive gain acts with the opposite sign */
HARNESS( h_direction )
{
    pidController p, q; refPid r; defaults( r, p );
    vf_assume( q.setup( ( r.kc > 0.0f ) ? -r.kc : r.kc, ( r.ki > 0.0f ) ? -r.ki : r.ki, ( r.kd > 0.0f ) ? -r.kd : r.kd, r.dt ) );
    r.lo = nd( "lo", 0 ); r.hi = nd( "hi", 0 ); vf_assume( r.lo < r.hi );
    vf_assume( p.setSaturation( r.lo, r.hi ) && q.setSaturation( r.lo, r.hi ) && p.setDirection( pidDirection::PID_BACKWARD ) );
    for ( int k = 0 ; k < 2 ; ++k ) {
        const float w = nd( "w", k ), y = nd( "y", k );
        vf_near( p.control( w, y ), q.control( w, y ), 1e-3, "reverse action equals negated positive gains" );
    }
    const pidGains g = p.getGains();
    vf_assert( g.Kc == r.kc && g.Ki == r.ki && g.Kd == r.kd, "the direction does not alter the stored gains" );
    vf_reach( "end" );
}
/* reset forgets the past completely and keeps the configuration */
HARNESS( h_reset )
{
    pidController p, q; refPid r; defaults( r, p );
    const float lo = nd( "lo", 0 ), hi = nd( "hi", 0 ), man = nd( "man", 0 ), gc = nd( "gc", 0 );
    vf_assume( lo < hi && q.setup( r.kc, r.ki, r.kd, r.dt ) );
    vf_assume( p.setSaturation( lo, hi ) && q.setSaturation( lo, hi ) && p.setManualInput( man ) && q.setManualInput( man ) );
    vf_assume( p.setReferenceWeighting( 0.5f, gc ) && q.setReferenceWeighting( 0.5f, gc ) );
    (void)p.control( nd( "w0", 0 ), nd( "y0", 0 ) );
    (void)p.control( nd( "w0", 1 ), nd( "y0", 1 ) );
    vf_assert( p.reset(), "reset succeeds" );
    for ( int k = 0 ; k < 2 ; ++k ) {
        const float w = nd( "w", k ), y = nd( "y", k );
        const pidMode m = vf_nd_b( "auto", k ) ? pidMode::PID_AUTOMATIC : pidMode::PID_MANUAL;
        vf_assume( p.setMode( m ) && q.setMode( m ) );
        vf_near( p.control( w, y ), q.control( w, y ), 1e-3, "after a reset the response equals a fresh controller" );
    }
    vf_reach( "end" );
}
/* [Kc,Ti,Td] parameters and the series form */
HARNESS( h_gains )
{
    pidController p; refPid r; defaults( r, p );
    const float kc = nd( "pk", 0 ), ti = nd( "pti", 0 ), td = nd( "ptd", 0 );
    vf_assume( ti > 0.0009765625f && td > 0.0009765625f && kc > 0.0009765625f );
    vf_assert( p.setParams( kc, ti, td ), "parameters accepted" );
    pidGains g = p.getGains();
    vf_near( g.Kc, kc, 1e-3, "Kc" ); vf_near( g.Ki*ti, kc, 1e-3, "Ki = Kc/Ti" ); vf_near( g.Kd, kc*td, 1e-3, "Kd = Kc*Td" );
    vf_assert( p.setSeries(), "series form accepted" );
    g = p.getGains();
    const float kp = kc*( 1.0f + td/ti );
    vf_near( g.Kc, kp, 1e-3, "series Kc" );
    vf_near( g.Ki*( ti + td ), kp, 1e-3, "series Ti = Ti+Td" );
    vf_near( g.Kd*( ti + td ), kp*( td*ti ), 1e-3, "series Td = Ti*Td/(Ti+Td)" );
    vf_assert( p.setGains( kc, ti, td ), "gains accepted" );
    g = p.getGains();
    vf_assert( g.Kc == kc && g.Ki == ti && g.Kd == td, "gains are stored as given" );
    pidGains h = { r.kc, r.ki, r.kd };
    vf_assert( p.setGains( h ), "gain struct accepted" );
    g = p.getGains();
    vf_assert( g.Kc == r.kc && g.Ki == r.ki && g.Kd == r.kd, "gain struct is stored as given" );
    vf_reach( "end" );
}
/* a gain set while running takes effect at the next step */
HARNESS( h_regain )
{
    pidController p; refPid r; defaults( r, p ); wide( r, p );
    float w = nd( "w", 0 ), y = nd( "y", 0 );
    vf_near( p.control( w, y ), r.finish( r.pid( w, y ), true ), 1e-2, "law before the change" );
    r.kc = nd( "kc", 1 ); r.ki = nd( "ki", 1 ); r.kd = nd( "kd", 1 );
    vf_assume( p.setGains( r.kc, r.ki, r.kd ) );
    w = nd( "w", 1 ); y = nd( "y", 1 );
    vf_near( p.control( w, y ), r.finish( r.pid( w, y ), true ), 1e-2, "law after the change" );
    vf_reach( "end" );
}
/* additive model-reference adaptive controller (modified MIT rule, frozen while saturated) */
HARNESS( h_mrac )
{
    pidController p; refPid r; defaults( r, p ); wide( r, p );
    float yr = 0.0f;
    const float ga = nd( "gamma", 0 ), al = nd( "alpha", 0 );
    vf_assume( ga > 0.0009765625f && al > 0.0009765625f && p.setModelReferenceControl( yr, ga, al ) );
    for ( int k = 0 ; k < 2 ; ++k ) {
        const float w = nd( "w", k ), y = nd( "y", k );
        yr = nd( "yr", k );
        const float u = p.control( w, y );
        const float u1 = r.u1;
        float v = r.pid( w, y );
        if ( ( ( u1 < 0.0f ) ? -u1 : u1 ) <= r.eps ) {
            const float de = -ga*( y - yr )*yr/( al + yr*yr );
            r.th = r.th + 0.5f*( de + r.del1 )*r.dt; r.del1 = de;
            v += w*r.th;
        }
        v = r.finish( v, true );
        vf_near( u, v, 1e-2, "model-reference action follows the documented law" );
    }
    vf_assert( p.removeModelReferenceControl(), "removal succeeds" );
    const float w = nd( "w", 5 ), y = nd( "y", 5 );
    yr = nd( "yr", 5 );
    vf_near( p.control( w, y ), r.finish( r.pid( w, y ), true ), 1e-2, "removal restores the plain law" );
    vf_reach( "end" );
}
