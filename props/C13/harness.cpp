/* C13: smoothing filters accept exactly the valid parameters, a refused setup changes nothing,
 * no access leaves the supplied arrays and averaging filters never leave the range of the samples */
#include <qlibs.h>
#include "vf.h"
using namespace qlibs;
static float fin( const char *n, int i ) { float x = vf_nd_f32( n, i ); vf_assume( ( x > -1.0e3f ) && ( x < 1.0e3f ) ); return x; }
static bool open01( float a ) { return ( a > 0.0f ) && ( a < 1.0f ); }
/* --- acceptance, bit-precise: every float including NaN, infinities */
HARNESS( h_acc_scalar )
{
    const float a = vf_nd_f32( "a", 0 ), b = vf_nd_f32( "a", 1 ), c = vf_nd_f32( "a", 2 );
    smootherLPF1 f1; vf_assert( f1.setup( a ) == open01( a ), "LPF1 accepts exactly 0<a<1" );
    smootherLPF2 f2; vf_assert( f2.setup( a ) == open01( a ), "LPF2 accepts exactly 0<a<1" );
    smootherEXPW f3; vf_assert( f3.setup( a ) == open01( a ), "EXPW accepts exactly 0<lambda<1" );
    smootherKLMN f4; vf_assert( f4.setup( a, b, c ) == ( ( a > 0.0f ) && ( b > 0.0f ) && ( c > 0.0f ) ), "KLMN accepts exactly positive covariances" );
    smootherDESF f5; vf_assert( f5.setup( a, b, vf_nd_u8( "n", 0 ) ) == ( open01( a ) && open01( b ) ), "DESF accepts exactly 0<a<1, 0<b<1" );
    vf_reach( "end" );
}
HARNESS( h_acc_window )
{
    float w[ 3 ], k[ 3 ], v[ 3 ];
    const size_t n = vf_nd_u8( "n", 0 ); vf_assume( n <= 3U );
    float * const pw = vf_nd_b( "null", 0 ) ? nullptr : w;
    float * const pk = vf_nd_b( "null", 1 ) ? nullptr : k;
    float * const pv = vf_nd_b( "null", 2 ) ? nullptr : v;
    const float a = vf_nd_f32( "a", 0 ), m = vf_nd_f32( "a", 1 );
    const bool ok = ( nullptr != pw ) && ( n > 0U );
    smootherMWM1 f1; vf_assert( f1.setup( pw, n ) == ok, "MWM1 needs a window" );
    smootherMWM2 f2; vf_assert( f2.setup( pw, n ) == ok, "MWM2 needs a window" );
    smootherMOR1 f3; vf_assert( f3.setup( pw, n, a ) == ( ok && open01( a ) ), "MOR1 needs a window and 0<a<1" );
    smootherMOR2 f4; vf_assert( f4.setup( pw, n, a ) == ( ok && open01( a ) ), "MOR2 needs a window and 0<a<1" );
    smootherALNF f5;
    const bool acc = f5.setup( a, m, n, pw, pk, pv );
    vf_assert( !acc || ( ok && ( nullptr != pk ) && open01( a ) && ( m >= 0.0f ) && ( m < 1.0f ) ), "ALNF refuses invalid arguments" );
    vf_assert( acc || !( ok && ( nullptr != pk ) && ( nullptr != pv ) && open01( a ) && open01( m ) ), "ALNF accepts valid arguments" );
    vf_reach( "end" );
}
HARNESS( h_acc_gauss )
{
    float w[ 3 ], k[ 3 ];
    const bool nw = vf_nd_b( "null", 0 ), nk = vf_nd_b( "null", 1 );
    const float sg = vf_nd_f32( "a", 0 ), c = vf_nd_f32( "a", 1 );
    const int big = vf_nd_b( "big", 0 );
    const size_t n = big ? 3U : 0U;
    smootherGMWF f;
    const bool acc = f.setup( sg, c, nw ? nullptr : w, nk ? nullptr : k, n );
    vf_assert( !acc || ( !nw && !nk && ( n > 0U ) && ( sg > 0.0f ) && ( c < static_cast<float>( n ) ) ), "GMWF refuses invalid arguments" );
    vf_assert( acc || nw || nk || ( 0U == n ) || !( sg > 0.0f ) || !( ( c >= 0.0f ) && ( c <= 2.0f ) ), "GMWF accepts valid arguments" );
    vf_reach( "end" );
}
/* --- a refused setup keeps the filter as it was (compared with a twin) */
template<class F> static void samplesPair( F &f, F &g, int n = 3 )
{
    for ( int k = 0 ; k < n ; ++k ) { const float x = fin( "x", k + 3 ), o = f.smooth( x ); vf_near( o, g.smooth( x ), 1e-4, "a refused setup changes nothing" ); }
    vf_reach( "end" );
}
template<class F> static void warm( F &f, F &g ) { for ( int k = 0 ; k < 2 ; ++k ) { const float x = fin( "x", k ); (void)f.smooth( x ); (void)g.smooth( x ); } }
static float badUnit( void ) { const float a = fin( "bad", 0 ); vf_assume( !open01( a ) ); return a; }
HARNESS( h_keep_lpf1 ) { smootherLPF1 f, g; f.setup( 0.25f ); g.setup( 0.25f ); warm( f, g ); vf_assert( !f.setup( badUnit() ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_lpf2 ) { smootherLPF2 f, g; f.setup( 0.25f ); g.setup( 0.25f ); warm( f, g ); vf_assert( !f.setup( badUnit() ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_expw ) { smootherEXPW f, g; f.setup( 0.25f ); g.setup( 0.25f ); warm( f, g ); vf_assert( !f.setup( badUnit() ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_klmn ) { smootherKLMN f, g; f.setup( 0.25f, 0.5f, 2.0f ); g.setup( 0.25f, 0.5f, 2.0f ); warm( f, g );
    const float z = fin( "bad", 0 ); vf_assume( z <= 0.0f ); const int w = static_cast<int>( vf_nd_u8( "which", 0 ) );
    vf_assert( !f.setup( ( 0 == w ) ? z : 1.0f, ( 1 == w ) ? z : 1.0f, ( w > 1 ) ? z : 1.0f ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_desf ) { smootherDESF f, g; f.setup( 0.25f, 0.5f, 2U ); g.setup( 0.25f, 0.5f, 2U ); warm( f, g ); const bool w = vf_nd_b( "which", 0 ); const float z = badUnit();
    vf_assert( !f.setup( w ? z : 0.5f, w ? 0.5f : z, 5U ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_mwm1 ) { smootherMWM1 f, g; float a[ 3 ], b[ 3 ], c[ 2 ]; f.setup( a ); g.setup( b ); warm( f, g ); vf_assert( !( vf_nd_b( "which", 0 ) ? f.setup( nullptr, 2U ) : f.setup( c, 0U ) ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_mwm2 ) { smootherMWM2 f, g; float a[ 3 ], b[ 3 ], c[ 2 ]; f.setup( a ); g.setup( b ); warm( f, g ); vf_assert( !( vf_nd_b( "which", 0 ) ? f.setup( nullptr, 2U ) : f.setup( c, 0U ) ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_mor1 ) { smootherMOR1 f, g; float a[ 2 ], b[ 2 ], c[ 2 ]; f.setup( a, 0.5f ); g.setup( b, 0.5f ); warm( f, g ); vf_assert( !( vf_nd_b( "which", 0 ) ? f.setup( nullptr, 2U, 0.25f ) : f.setup( c, 2U, badUnit() ) ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_mor2 ) { smootherMOR2 f, g; float a[ 2 ], b[ 2 ], c[ 2 ]; f.setup( a, 0.5f ); g.setup( b, 0.5f ); warm( f, g ); vf_assert( !( vf_nd_b( "which", 0 ) ? f.setup( nullptr, 2U, 0.25f ) : f.setup( c, 2U, badUnit() ) ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_gmwf ) { smootherGMWF f, g; float a[ 2 ], b[ 2 ], c[ 2 ], p[ 2 ], q[ 2 ]; f.setup( 1.0f, 0.5f, a, p ); g.setup( 1.0f, 0.5f, b, q ); warm( f, g );
    const float z = fin( "bad", 0 ); vf_assume( z <= 0.0f ); vf_assert( !( vf_nd_b( "which", 0 ) ? f.setup( z, 0.5f, c, p ) : f.setup( 1.0f, 0.5f, c, nullptr, 2U ) ), "refused" ); samplesPair( f, g ); }
HARNESS( h_keep_alnf ) { smootherALNF f, g; float a[ 2 ], b[ 2 ], c[ 2 ], p[ 2 ], q[ 2 ]; f.setup( 0.125f, a, p ); g.setup( 0.125f, b, q ); 
    const float x0 = fin( "x", 0 ); (void)f.smooth( x0 ); (void)g.smooth( x0 );
    vf_assert( !( vf_nd_b( "which", 0 ) ? f.setup( badUnit(), c, c ) : f.setup( 0.5f, 0.0f, 2U, c, nullptr, nullptr ) ), "refused" ); samplesPair( f, g, 2 ); }
/* --- no access outside the supplied arrays, bit-precise, any sample */
template<int N, int W> static void safe( void )
{
    struct { float pre, w[ N ], mid, k[ N ], in2, v[ N ], post; } m;
    m.pre = m.mid = m.in2 = m.post = 1234.5f;
    smootherMWM1 f1; smootherMWM2 f2; smootherMOR1 f3; smootherMOR2 f4; smootherGMWF f5; smootherALNF f6; smoother *s;
    if ( 1 == W ) { s = &f1; vf_assert( f1.setup( m.w ), "setup" ); }
    else if ( 2 == W ) { s = &f2; vf_assert( f2.setup( m.w ), "setup" ); }
    else if ( 3 == W ) { s = &f3; vf_assert( f3.setup( m.w, 0.5f ), "setup" ); }
    else if ( 4 == W ) { s = &f4; vf_assert( f4.setup( m.w, 0.5f ), "setup" ); }
    else if ( 5 == W ) { s = &f5; vf_assert( f5.setup( 1.0f, 0.0f, m.w, m.k ), "setup" ); }
    else if ( 6 == W ) { s = &f6; vf_assert( f6.setup( 0.5f, m.w, m.k ), "setup" ); }
    else { s = &f6; vf_assert( f6.setup( 0.5f, 0.25f, m.w, m.k, m.v ), "setup" ); }
    for ( int k = 0 ; k < ( 2*N + 2 ) ; ++k ) {
        if ( vf_nd_b( "rst", k ) ) { s->reset(); }
        vf_observe( "o", k, s->smooth( vf_nd_f32( "x", k ) ) );
        vf_assert( ( 1234.5f == m.pre ) && ( 1234.5f == m.mid ) && ( 1234.5f == m.in2 ) && ( 1234.5f == m.post ), "memory next to the arrays stays" );
    }
    vf_reach( "end" );
}
HARNESS( h_safe_1_1 ) { safe<1,1>(); }
HARNESS( h_safe_1_2 ) { safe<1,2>(); }
HARNESS( h_safe_1_3 ) { safe<1,3>(); }
HARNESS( h_safe_1_4 ) { safe<1,4>(); }
HARNESS( h_safe_1_5 ) { safe<1,5>(); }
HARNESS( h_safe_1_6 ) { safe<1,6>(); }
HARNESS( h_safe_1_7 ) { safe<1,7>(); }
HARNESS( h_safe_2_1 ) { safe<2,1>(); }
HARNESS( h_safe_2_2 ) { safe<2,2>(); }
HARNESS( h_safe_2_3 ) { safe<2,3>(); }
HARNESS( h_safe_2_4 ) { safe<2,4>(); }
HARNESS( h_safe_2_5 ) { safe<2,5>(); }
HARNESS( h_safe_2_6 ) { safe<2,6>(); }
HARNESS( h_safe_2_7 ) { safe<2,7>(); }
HARNESS( h_safe_4_1 ) { safe<4,1>(); }
HARNESS( h_safe_4_2 ) { safe<4,2>(); }
HARNESS( h_safe_4_3 ) { safe<4,3>(); }
HARNESS( h_safe_4_4 ) { safe<4,4>(); }
HARNESS( h_safe_4_5 ) { safe<4,5>(); }
HARNESS( h_safe_4_6 ) { safe<4,6>(); }
HARNESS( h_safe_4_7 ) { safe<4,7>(); }
/* --- averaging filters stay in the range of the samples, exact arithmetic */
template<class F> static void hull( F &f, int n )
{
    const float lo = fin( "lo", 0 ), hi = fin( "hi", 0 );
    for ( int k = 0 ; k < n ; ++k ) {
        const float x = fin( "x", k ); vf_assume( ( x >= lo ) && ( x <= hi ) );
        const float o = f.smooth( x ), tol = 1.0e-3f;
        vf_assert( ( o >= ( lo - tol ) ) && ( o <= ( hi + tol ) ), "the output stays within the range of the samples" );
    }
    vf_reach( "end" );
}
static float unit( void ) { const float a = vf_nd_f32( "a", 0 ); vf_assume( ( a > 0.0009765625f ) && ( a < 0.9990234375f ) ); return a; }
HARNESS( h_hull_lpf1 ) { smootherLPF1 f; f.setup( unit() ); hull( f, 3 ); }
HARNESS( h_hull_expw ) { smootherEXPW f; f.setup( unit() ); hull( f, 2 ); }
HARNESS( h_hull_mwm1 ) { smootherMWM1 f; float w[ 3 ]; f.setup( w ); hull( f, 5 ); }
HARNESS( h_hull_mwm2 ) { smootherMWM2 f; float w[ 3 ]; f.setup( w ); hull( f, 5 ); }
HARNESS( h_hull_mor1 ) { smootherMOR1 f; float w[ 2 ]; f.setup( w, 0.5f ); hull( f, 3 ); }
HARNESS( h_hull_mor2 ) { smootherMOR2 f; float w[ 2 ]; f.setup( w, 0.5f ); hull( f, 3 ); }
