/* C12: each smoothing filter computes its documented recursive equation */
#include <qlibs.h>
#include "vf.h"
using namespace qlibs;
#ifdef VF_THOROUGH
#define NS 9
#else
#define NS 7
#endif
static float nd( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( ( x > -1.0e3f ) && ( x < 1.0e3f ) ); return x; }
static float unit( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( ( x > 0.0009765625f ) && ( x < 0.9990234375f ) ); return x; }
static float pos( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( ( x > 0.0009765625f ) && ( x < 1.0e3f ) ); return x; }
static float absf_( float x ) { return ( x < 0.0f ) ? -x : x; }
/* samples of every harness; an optional reset before sample "at" restarts the filter */
static float sample( int k ) { return nd( "x", k ); }
static int resetAt( void ) { return vf_nd_b( "rst", 0 ) ? 2 : -1; }
#define STEPS( f, first, o, law, label ) STEPSK( NS, f, first, o, law, label )
#define STEPSK( nS, f, first, o, law, label ) \
    { const int at = resetAt(); bool first = true; \
      for ( int k = 0 ; k < nS ; ++k ) { const float x = sample( k ); if ( k == at ) { vf_assert( f.reset(), "reset succeeds" ); first = true; } \
        const float o = f.smooth( x ); float want; law; first = false; vf_observe( "o", k, o ); vf_near( o, want, 1e-2, label ); } }
HARNESS( h_lpf1 )
{
    smootherLPF1 f; const float a = unit( "a", 0 );
    vf_assert( f.setup( a ), "setup" );
    float y1 = 0.0f;
    STEPS( f, first, o, { if ( first ) { y1 = x; } want = x + a*( y1 - x ); y1 = want; }, "first-order low-pass law" )
    vf_reach( "end" );
}
HARNESS( h_lpf2 )
{
    smootherLPF2 f; const float a = unit( "a", 0 );
    vf_assert( f.setup( a ), "setup" );
    const float p = ffmath::sqrt( 2.0f*a ), r = 1.0f + p + a*a;
    const float k0 = a*a/r, a1 = 2.0f*( a*a - 1.0f )/r, a2 = ( 1.0f - p + a*a )/r, b1 = 2.0f*k0;
    float y1 = 0.0f, y2 = 0.0f, x1 = 0.0f, x2 = 0.0f;
    STEPS( f, first, o, { if ( first ) { y1 = y2 = x1 = x2 = x; } want = k0*x + b1*x1 + k0*x2 - a1*y1 - a2*y2; x2 = x1; x1 = x; y2 = y1; y1 = want; }, "second-order low-pass law" )
    vf_reach( "end" );
}
template<int N> struct win {
    float h[ N ];
    void put( float x, bool first ) { for ( int i = N - 1 ; i > 0 ; --i ) { h[ i ] = first ? x : h[ i - 1 ]; } h[ 0 ] = x; }
    float mean( void ) const { float s = 0.0f; for ( int i = 0 ; i < N ; ++i ) { s += h[ i ]; } return s/static_cast<float>( N ); }
};
template<int N, class F> static void mean( void )
{
    F f; float w[ N ];
    for ( int i = 0 ; i < N ; ++i ) { w[ i ] = nd( "junk", i ); }
    vf_assert( f.setup( w ), "setup" );
    win<N> r;
    STEPS( f, first, o, { r.put( x, first ); want = r.mean(); }, "mean of the last N samples, the first sample standing for missing ones" )
    vf_reach( "end" );
}
HARNESS( h_mwm1_1 ) { mean<1,smootherMWM1>(); }
HARNESS( h_mwm1_2 ) { mean<2,smootherMWM1>(); }
HARNESS( h_mwm1_3 ) { mean<3,smootherMWM1>(); }
HARNESS( h_mwm2_1 ) { mean<1,smootherMWM2>(); }
HARNESS( h_mwm2_2 ) { mean<2,smootherMWM2>(); }
HARNESS( h_mwm2_3 ) { mean<3,smootherMWM2>(); }
HARNESS( h_mwm2_4 ) { mean<4,smootherMWM2>(); }
template<int N, class F> static void outlier( void )
{
    F f; float w[ N ]; const float a = unit( "a", 0 );
    for ( int i = 0 ; i < N ; ++i ) { w[ i ] = nd( "junk", i ); }
    vf_assert( f.setup( w, a ), "setup" );
    win<N> r; float m = 0.0f;
    const int at = resetAt(); bool first = true;
    for ( int k = 0 ; k < 4 ; ++k ) {
        const float x = sample( k );
        if ( k == at ) { vf_assert( f.reset(), "reset succeeds" ); first = true; }
        const float o = f.smooth( x );
        if ( first ) { m = x; for ( int i = 0 ; i < N ; ++i ) { r.h[ i ] = x; } }
        const float want = ( absf_( m - x ) > ( a*absf_( m ) ) ) ? m : x;
        r.put( want, false ); m = r.mean(); first = false;
        vf_observe( "o", k, o );
        vf_near( o, want, 1e-2, "an outlier is replaced by the moving mean, any other sample passes" );
    }
    vf_reach( "end" );
}
HARNESS( h_mor1_1 ) { outlier<1,smootherMOR1>(); }
HARNESS( h_mor1_2 ) { outlier<2,smootherMOR1>(); }
HARNESS( h_mor1_3 ) { outlier<3,smootherMOR1>(); }
HARNESS( h_mor2_1 ) { outlier<1,smootherMOR2>(); }
HARNESS( h_mor2_2 ) { outlier<2,smootherMOR2>(); }
HARNESS( h_mor2_3 ) { outlier<3,smootherMOR2>(); }
template<int N> static void gauss( void )
{
    smootherGMWF f; float w[ N ], kr[ N ], g[ N ], s = 0.0f;
    for ( int i = 0 ; i < N ; ++i ) { w[ i ] = nd( "junk", i ); kr[ i ] = nd( "junk", i + N ); }
    const float sg = pos( "sg", 0 ), c = nd( "c", 0 );
    vf_assume( ( c >= 0.0f ) && ( c <= static_cast<float>( N - 1 ) ) && ( sg > 0.25f ) );
    vf_assert( f.setup( sg, c, w, kr ), "setup" );
    for ( int i = 0 ; i < N ; ++i ) { const float d = static_cast<float>( i ) - c; g[ i ] = ffmath::exp( -( d*d )/( 2.0f*sg*sg ) ); s += g[ i ]; }
    win<N> r;
    STEPS( f, first, o, { r.put( x, first ); want = 0.0f; for ( int i = 0 ; i < N ; ++i ) { want += g[ i ]*r.h[ i ]/s; } }, "gaussian weighted mean of the last N samples" )
    vf_reach( "end" );
}
HARNESS( h_gmwf_2 ) { gauss<2>(); }
HARNESS( h_gmwf_3 ) { gauss<3>(); }
HARNESS( h_expw )
{
    smootherEXPW f; const float l = unit( "a", 0 );
    vf_assert( f.setup( l ), "setup" );
    float m = 0.0f, w = 1.0f;
    STEPSK( 5, f, first, o, { if ( first ) { m = x; w = 1.0f; } w = l*w + 1.0f; m = ( 1.0f - 1.0f/w )*m + x/w; want = m; }, "exponential weighting law" )
    vf_reach( "end" );
}
HARNESS( h_klmn )
{
    smootherKLMN f; const float q = pos( "q", 0 ), rr = pos( "q", 1 ); float p = pos( "q", 2 );
    vf_assert( f.setup( q, rr, p ), "setup" );
    float xs = 0.0f;
    for ( int k = 0 ; k < 3 ; ++k ) {
        const float x = sample( k ), o = f.smooth( x );
        if ( 0 == k ) { xs = x; }
        p = p + q;
        const float g = p/( p + rr );
        xs = xs + g*( x - xs );
        p = ( 1.0f - g )*p;
        vf_observe( "o", k, o );
        vf_near( o, xs, 1e-2, "scalar Kalman law" );
    }
    vf_assert( f.reset(), "reset succeeds" );
    const float x = nd( "xr", 0 );
    vf_near( f.smooth( x ), x, 1e-2, "after a reset the estimate restarts at the sample" );
    vf_reach( "end" );
}
template<int N> static void desf( void )
{
    smootherDESF f; const float a = unit( "a", 0 ), b = unit( "a", 1 );
    vf_assert( f.setup( a, b, N ), "setup" );
    float lt = 0.0f, bt = 0.0f;
    STEPS( f, first, o, { if ( first ) { lt = bt = x; } const float l1 = lt; lt = ( 1.0f - a )*l1 + a*x; bt = ( 1.0f - b )*bt + b*( lt - l1 ); want = lt + static_cast<float>( N )*bt; }, "double exponential forecast" )
    vf_reach( "end" );
}
HARNESS( h_desf_0 ) { desf<0>(); }
HARNESS( h_desf_1 ) { desf<1>(); }
HARNESS( h_desf_3 ) { desf<3>(); }
template<int N> static void alnf( bool momentum )
{
    smootherALNF f; const float a = unit( "a", 0 ), mu = momentum ? unit( "a", 1 ) : 0.0f;
    float xw[ N ], w[ N ], w1[ N ];
    for ( int i = 0 ; i < N ; ++i ) { xw[ i ] = nd( "junk", i ); w[ i ] = nd( "junk", i + N ); w1[ i ] = nd( "junk", i + 2*N ); }
    vf_assert( momentum ? f.setup( a, mu, xw, w, w1 ) : f.setup( a, xw, w ), "setup" );
    win<N> r; float c[ N ], d[ N ];
    const int at = vf_nd_b( "rst", 0 ) ? 2 : -1; bool first = true;
    for ( int k = 0 ; k < 4 ; ++k ) {
        const float x = sample( k );
        if ( k == at ) { vf_assert( f.reset(), "reset succeeds" ); first = true; }
        const float o = f.smooth( x );
        if ( first ) { for ( int i = 0 ; i < N ; ++i ) { c[ i ] = 1.0f/static_cast<float>( N ); d[ i ] = 0.0f; } }
        r.put( x, first ); first = false;
        float y = 0.0f;
        for ( int i = 0 ; i < N ; ++i ) { y += c[ i ]*r.h[ i ]; }
        for ( int i = 0 ; i < N ; ++i ) { d[ i ] = a*( x - y )*r.h[ i ] + mu*d[ i ]; c[ i ] += d[ i ]; }
        vf_observe( "o", k, o );
        vf_near( o, y, 1e-2, "adaptive filter output and weight update" );
    }
    vf_reach( "end" );
}
HARNESS( h_alnf_1 ) { alnf<1>( false ); }
HARNESS( h_alnf_2 ) { alnf<2>( false ); }
HARNESS( h_alnf_m1 ) { alnf<1>( true ); }
HARNESS( h_alnf_m2 ) { alnf<2>( true ); }
/* a constant signal goes through every averaging filter unchanged */
template<class F> static void constant( F &f )
{
    const float c = nd( "x", 0 );
    for ( int k = 0 ; k < 3 ; ++k ) { vf_near( f.smooth( c ), c, 1e-3, "a constant signal passes unchanged" ); }
    vf_reach( "end" );
}
HARNESS( h_const_lpf1 ) { smootherLPF1 f; vf_assert( f.setup( unit( "a", 0 ) ), "setup" ); constant( f ); }
HARNESS( h_const_mwm1 ) { smootherMWM1 f; float w[ 3 ]; vf_assert( f.setup( w ), "setup" ); constant( f ); }
HARNESS( h_const_mwm2 ) { smootherMWM2 f; float w[ 3 ]; vf_assert( f.setup( w ), "setup" ); constant( f ); }
HARNESS( h_const_mor1 ) { smootherMOR1 f; float w[ 3 ]; vf_assert( f.setup( w, unit( "a", 0 ) ), "setup" ); constant( f ); }
HARNESS( h_const_mor2 ) { smootherMOR2 f; float w[ 3 ]; vf_assert( f.setup( w, unit( "a", 0 ) ), "setup" ); constant( f ); }
HARNESS( h_const_gmwf ) { smootherGMWF f; float w[ 2 ], kr[ 2 ]; vf_assert( f.setup( 1.0f, 0.5f, w, kr ), "setup" ); constant( f ); }
HARNESS( h_const_expw ) { smootherEXPW f; vf_assert( f.setup( unit( "a", 0 ) ), "setup" ); constant( f ); }
HARNESS( h_const_klmn ) { smootherKLMN f; vf_assert( f.setup( pos( "q", 0 ), pos( "q", 1 ), pos( "q", 2 ) ), "setup" ); constant( f ); }
