/* C03: a tapped delay line always returns the sample inserted i steps ago. */
#include "vf.h"
#include <qlibs.h>
using namespace qlibs;
#ifdef VF_THOROUGH
#define STEPS( n ) ( 3*(n) + 2 )
#else
#define STEPS( n ) ( 2*(n) + 1 )
#endif
static uint32_t bits( float f ) { uint32_t b; memcpy( &b, &f, 4 ); return b; }

template<int N>
static void history( void )
{
    float area[ N ];
    float hist[ N ];
    tdl d;
    vf_assert( !d.isInitialized(), "not initialised before setup" );
    const float x0 = vf_nd_f32( "init", 0 );
    d.setup( area, x0 );
    vf_assert( d.isInitialized(), "initialised after setup" );
    for ( int i = 0 ; i < N ; ++i ) { hist[ i ] = x0; }
    const size_t q = vf_nd_u64( "query", 0 );
    const int flushAt = static_cast<int>( vf_nd_u32( "flushAt", 0 ) );
    vf_assume( q < N );
    for ( int k = 0 ; k < STEPS( N ) ; ++k ) {
        const float x = vf_nd_f32( "x", k );
        if ( k == flushAt ) {
            d.flush( x );
            for ( int i = 0 ; i < N ; ++i ) { hist[ i ] = x; }
        }
        else {
            if ( k & 1 ) { d( x ); } else { d.insertSample( x ); }
            for ( int i = N - 1 ; i > 0 ; --i ) { hist[ i ] = hist[ i - 1 ]; }
            hist[ 0 ] = x;
        }
        vf_assert( bits( d.getRecent() ) == bits( hist[ 0 ] ), "most recent sample" );
        vf_assert( bits( d.getOldest() ) == bits( hist[ N - 1 ] ), "oldest sample" );
        vf_assert( bits( d.getAtIndex( q ) ) == bits( hist[ q ] ), "sample delayed by i steps" );
        vf_assert( bits( d[ static_cast<int>( q ) ] ) == bits( hist[ q ] ), "indexed sample delayed by i steps" );
        vf_assert( bits( d[ -1 ] ) == bits( hist[ N - 1 ] ), "index -1 is the oldest sample" );
    }
    const int bad = static_cast<int>( vf_nd_u32( "bad", 0 ) );
    vf_assume( ( bad < -1 ) || ( bad >= N ) );
    const float u = d[ bad ];
    vf_assert( u != u, "an out-of-range index gives an undefined (NaN) sample" );
    vf_reach( "end" );
}
HARNESS( h_n1 ) { history<1>(); }
HARNESS( h_n2 ) { history<2>(); }
HARNESS( h_n3 ) { history<3>(); }
HARNESS( h_n4 ) { history<4>(); }
HARNESS( h_n5 ) { history<5>(); }
