/* C08: the PID output never leaves the configured saturation limits; invalid configuration is refused */
#include <qlibs.h>
#include "vf.h"
using namespace qlibs;
#ifdef VF_THOROUGH
#define NS 8
#else
#define NS 4
#endif
static bool fin( float x ) { return ( x > -1.0e6f ) && ( x < 1.0e6f ); }
static float nd( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( fin( x ) ); return x; }
static void configure( pidController &p, float &lo, float &hi, int tag )
{
    const float dt = nd( "dt", tag );
    vf_assume( dt > 0.0009765625f );
    vf_assert( p.setup( nd( "kc", tag ), nd( "ki", tag ), nd( "kd", tag ), dt ), "setup with a positive time step succeeds" );
    lo = nd( "lo", tag ); hi = nd( "hi", tag );
    vf_assume( lo < hi );
    vf_assert( p.setSaturation( lo, hi ), "ordered limits are accepted" );
    const float beta = nd( "beta", tag );
    vf_assume( ( beta >= 0.0f ) && ( beta < 1.0f ) );
    vf_assert( p.setDerivativeFilter( beta ), "filter parameter in [0,1) is accepted" );
    vf_assert( p.setReferenceWeighting( nd( "gb", tag ), nd( "gc", tag ) ), "weights accepted" );
    vf_assert( p.setExtraGains( nd( "kw", tag ), nd( "kt", tag ) ), "extra gains accepted" );
    vf_assert( p.setManualInput( nd( "man", tag ) ), "manual input accepted" );
    vf_assert( p.setDirection( vf_nd_b( "back", tag ) ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD ), "direction accepted" );
    const float eps = nd( "eps", tag );
    vf_assume( eps > 0.0f );
    vf_assert( p.setEpsilon( eps ), "epsilon accepted" );
}
/* limits hold on every step of any run, mode switches included */
HARNESS( h_limits )
{
    pidController p; float lo, hi;
    configure( p, lo, hi, 0 );
    for ( int k = 0 ; k < NS ; ++k ) {
        (void)p.setMode( vf_nd_b( "auto", k ) ? pidMode::PID_AUTOMATIC : pidMode::PID_MANUAL );
        const float u = p.control( nd( "w", k ), nd( "y", k ) );
        vf_observe( "u", k, u );
        vf_assert( u >= lo, "output not below the minimum" );
        vf_assert( u <= hi, "output not above the maximum" );
    }
    vf_reach( "end" );
}
/* the same with the additive model-reference controller active */
HARNESS( h_limits_mrac )
{
    pidController p; float lo, hi; float yr = 0.0f;
    configure( p, lo, hi, 0 );
    const float g = nd( "gamma", 0 ), a = nd( "alpha", 0 );
    vf_assert( p.setModelReferenceControl( yr, g, a ) == ( ( g > 0.0f ) && ( a > 0.0f ) ), "model reference control needs positive parameters" );
    for ( int k = 0 ; k < 2 ; ++k ) {
        yr = nd( "yr", k );
        (void)p.setMode( vf_nd_b( "auto", k ) ? pidMode::PID_AUTOMATIC : pidMode::PID_MANUAL );
        const float u = p.control( nd( "w", k ), nd( "y", k ) );
        vf_assert( u >= lo, "output not below the minimum" );
        vf_assert( u <= hi, "output not above the maximum" );
    }
    vf_reach( "end" );
}
/* limits changed at run time apply from the next step on; refused limits leave the old ones */
HARNESS( h_relimit )
{
    pidController p; float lo, hi;
    configure( p, lo, hi, 0 );
    (void)p.control( nd( "w", 0 ), nd( "y", 0 ) );
    const float lo2 = nd( "lo", 1 ), hi2 = nd( "hi", 1 );
    const bool ok = p.setSaturation( lo2, hi2 );
    vf_assert( ok == ( lo2 < hi2 ), "limits are accepted iff the maximum is above the minimum" );
    (void)p.setMode( vf_nd_b( "auto", 1 ) ? pidMode::PID_AUTOMATIC : pidMode::PID_MANUAL );
    const float u = p.control( nd( "w", 1 ), nd( "y", 1 ) );
    vf_assert( u >= ( ok ? lo2 : lo ), "output not below the minimum in force" );
    vf_assert( u <= ( ok ? hi2 : hi ), "output not above the maximum in force" );
    vf_reach( "end" );
}
/* default limits after a setup are 0..100 and the gains are those requested */
HARNESS( h_defaults )
{
    pidController p;
    const float kc = nd( "kc", 0 ), ki = nd( "ki", 0 ), kd = nd( "kd", 0 ), dt = vf_nd_f32( "dt", 0 );
    vf_assume( dt < 1.0e6f && dt > -1.0e6f && ( dt <= 0.0f || dt > 0.0009765625f ) );
    const bool ok = p.setup( kc, ki, kd, dt );
    vf_assert( ok == ( dt > 0.0f ), "setup succeeds iff the time step is positive" );
    const float w = nd( "w", 0 ), y = nd( "y", 0 );
    const float u = p.control( w, y );
    if ( ok ) {
        const pidGains g = p.getGains();
        vf_assert( g.Kc == kc && g.Ki == ki && g.Kd == kd, "gains are the requested ones" );
        vf_assert( ( u >= 0.0f ) && ( u <= 100.0f ), "default limits are 0 and 100" );
    }
    else {
        vf_assert( u == w, "an unconfigured controller passes the reference through" );
        vf_assert( !p.setGains( kc, ki, kd ) && !p.setParams( kc, 1.0f, kd ) && !p.setSaturation( 0.0f, 1.0f ) && !p.setSeries(), "unconfigured: refused (gains)" );
        vf_assert( !p.setExtraGains( 1.0f, 1.0f ) && !p.setEpsilon( 0.1f ) && !p.setDerivativeFilter( 0.5f ) && !p.setMode( pidMode::PID_MANUAL ), "unconfigured: refused (options)" );
        vf_assert( !p.setReferenceWeighting( 1.0f, 1.0f ) && !p.setManualInput( 0.0f ) && !p.reset() && !p.setDirection( pidDirection::PID_BACKWARD ), "unconfigured: refused (inputs)" );
    }
    vf_reach( "end" );
}
HARNESS( h_unset )
{
    pidController p;
    const float w = vf_nd_f32( "w", 0 );
    vf_assert( p.control( w, vf_nd_f32( "y", 0 ) ) == w, "never configured: the reference passes through" );
    vf_assert( !p.removeModelReferenceControl() && !p.setModelReferenceControl( w ) && !p.setDerivativeFilterTimeConstant( 1.0f ), "unconfigured: refused (model reference)" );
    pidAutoTuning at;
    vf_assert( !p.bindAutoTuning( at ) && !p.enableAutoTuning( 10U ) && !p.isAutoTuningComplete() && !p.unbindAutoTuning(), "unconfigured: refused (tuning)" );
    vf_reach( "end" );
}
/* a configured controller keeps working whatever is refused afterwards */
HARNESS( h_refuse )
{
    pidController p; float lo, hi;
    configure( p, lo, hi, 0 );
    const float bt = nd( "bt", 0 ), dt2 = nd( "dt2", 0 );
    vf_assert( p.setDerivativeFilter( bt ) == ( ( bt >= 0.0f ) && ( bt < 1.0f ) ), "derivative filter accepted iff 0 <= beta < 1" );
    vf_assume( dt2 <= 0.0f );
    vf_assert( !p.setup( 1.0f, 2.0f, 3.0f, dt2 ), "reconfiguration with an invalid time step is refused" );
    const float u = p.control( nd( "w", 0 ), nd( "y", 0 ) );
    vf_assert( ( u >= lo ) && ( u <= hi ), "limits survive refused calls" );
    vf_reach( "end" );
}
/* bit-precise: even with overflow to infinity the output respects the limits (NaN excepted) */
HARNESS( h_fp )
{
    pidController p;
    const float lo = vf_nd_f32( "lo", 0 ), hi = vf_nd_f32( "hi", 0 ), dt = vf_nd_f32( "dt", 0 );
    vf_assume( dt > 0.0f );
    vf_assume( p.setup( vf_nd_f32( "kc", 0 ), vf_nd_f32( "ki", 0 ), 0.0f, dt ) );
    vf_assert( p.setSaturation( lo, hi ) == ( lo < hi ), "limits accepted iff ordered" );
    vf_assume( lo < hi );
    const float u = p.control( vf_nd_f32( "w", 0 ), vf_nd_f32( "y", 0 ) );
    vf_assert( ( u != u ) || ( ( u >= lo ) && ( u <= hi ) ), "bit-precise output within the limits" );
    vf_reach( "end" );
}
