/* C07: the array algorithms do what their names say on the inclusive range [first,last] and touch nothing else */
#include <qlibs.h>
#include <climits>
#include "vf.h"
using namespace qlibs;
typedef int32_t T;
static T val( const char *n, int i ) { return static_cast<T>( vf_nd_u32( n, i ) ); }
template<int N> static void fillArr( T ( &a )[ N ], T ( &b )[ N ] ) { for ( int i = 0 ; i < N ; ++i ) { a[ i ] = b[ i ] = val( "v", i ); } }
template<int N> static void range( size_t &f, size_t &l )
{
    f = vf_nd_u8( "first", 0 ); l = vf_nd_u8( "last", 0 );
    vf_assume( ( f <= l ) && ( l < static_cast<size_t>( N ) ) );
}
static bool descending( const T &x, const T &y ) { return x > y; }
static bool byLow( const T &x, const T &y ) { return ( x & 0xFF ) < ( y & 0xFF ); }
static bool neg( const T x ) { return x < 0; }
static bool negr( const T &x ) { return x < 0; }
static void bump( T &x ) { x = static_cast<T>( static_cast<uint32_t>( x )*3U + 1U ); }
template<int N> static void permuted( const T ( &a )[ N ], const T ( &b )[ N ] )
{
    /* any value occurs as often as before */
    const T w = val( "w", 0 );
    int p = 0, q = 0;
    for ( int i = 0 ; i < N ; ++i ) { p += ( a[ i ] == w ) ? 1 : 0; q += ( b[ i ] == w ) ? 1 : 0; }
    vf_assert( p == q, "a sorted array holds the same values" );
}
template<int N> static void sorting( size_t F, size_t L )
{
    T a[ N ], b[ N ]; fillArr<N>( a, b );
    algorithm::sort( a, F, L );
    for ( size_t i = F ; i < L ; ++i ) { vf_assert( !( a[ i + 1U ] < a[ i ] ), "ascending order" ); }
    for ( size_t i = 0U ; i < static_cast<size_t>( N ) ; ++i ) { if ( ( i < F ) || ( i > L ) ) { vf_assert( a[ i ] == b[ i ], "elements outside the range stay" ); } }
    permuted<N>( a, b );
    vf_reach( "end" );
}
HARNESS( h_sort1 ) { T a[ 1 ] = { val( "v", 0 ) }; const T x = a[ 0 ]; algorithm::sort( a ); vf_assert( a[ 0 ] == x, "one element" ); vf_reach( "end" ); }
HARNESS( h_sort2 ) { sorting<2>( 0U, 1U ); }
HARNESS( h_sort3 ) { sorting<3>( 0U, 2U ); }
HARNESS( h_sort4 ) { sorting<4>( 0U, 3U ); }
HARNESS( h_sort5 ) { sorting<5>( 0U, 4U ); }
HARNESS( h_sort4r ) { sorting<4>( 1U, 3U ); }
HARNESS( h_sort5r ) { sorting<5>( 1U, 3U ); }
template<int N> static void sortingBy( bool (*cmp)( const T&, const T& ) )
{
    T a[ N ], b[ N ]; fillArr<N>( a, b );
    algorithm::sort( a, 0U, N - 1U, cmp );
    for ( int i = 0 ; i + 1 < N ; ++i ) { vf_assert( !cmp( a[ i + 1 ], a[ i ] ), "order of the comparison function" ); }
    permuted<N>( a, b );
    vf_reach( "end" );
}
HARNESS( h_cmp2 ) { sortingBy<2>( descending ); }
HARNESS( h_cmp3 ) { sortingBy<3>( descending ); }
HARNESS( h_cmp4 ) { sortingBy<4>( descending ); }
HARNESS( h_cmp4b ) { sortingBy<4>( byLow ); }
HARNESS( h_cmp5 ) { sortingBy<5>( descending ); }
template<int N> static void reversing( void )
{
    T a[ N ], b[ N ]; fillArr<N>( a, b );
    size_t f, l; range<N>( f, l );
    algorithm::reverse( a, f, l );
    for ( size_t i = 0U ; i < static_cast<size_t>( N ) ; ++i ) {
        const T want = ( ( i < f ) || ( i > l ) ) ? b[ i ] : b[ f + l - i ];
        vf_assert( a[ i ] == want, "exactly the range is reversed" );
    }
    algorithm::reverse( a, f, l );
    for ( int i = 0 ; i < N ; ++i ) { vf_assert( a[ i ] == b[ i ], "reversing twice restores" ); }
    vf_reach( "end" );
}
HARNESS( h_reverse1 ) { reversing<1>(); }
HARNESS( h_reverse4 ) { reversing<4>(); }
HARNESS( h_reverse5 ) { reversing<5>(); }
template<int N> static void rotating( void )
{
    T a[ N ], b[ N ]; fillArr<N>( a, b );
    const int k = static_cast<int>( vf_nd_u32( "k", 0 ) );
    algorithm::rotate( a, k );
    const long s = ( ( static_cast<long>( k )%N ) + N )%N;
    for ( int i = 0 ; i < N ; ++i ) {
        int at = i + static_cast<int>( s ); if ( at >= N ) { at -= N; }
        vf_assert( a[ at ] == b[ i ], "right rotation by k, left when negative" );
    }
    vf_reach( "end" );
}
HARNESS( h_rotate1 ) { rotating<1>(); }
HARNESS( h_rotate2 ) { rotating<2>(); }
HARNESS( h_rotate3 ) { rotating<3>(); }
HARNESS( h_rotate4 ) { rotating<4>(); }
HARNESS( h_rotate5 ) { rotating<5>(); }
template<int N> static void scanning( void )
{
    T a[ N ], b[ N ]; fillArr<N>( a, b );
    size_t f, l; range<N>( f, l );
    const T key = val( "key", 0 );
    T *fst = nullptr, *fif = nullptr; size_t cnt = 0U;
    for ( size_t i = static_cast<size_t>( N ) ; i-- > 0U ; ) {
        if ( ( i >= f ) && ( i <= l ) ) {
            if ( b[ i ] == key ) { fst = &a[ i ]; }
            if ( b[ i ] < 0 ) { fif = &a[ i ]; ++cnt; }
        }
    }
    vf_assert( algorithm::find( a, key, f, l ) == fst, "find returns the first match" );
    vf_assert( algorithm::find_if( a, neg, f, l ) == fif, "find_if returns the first match" );
    vf_assert( algorithm::count_if( a, neg, f, l ) == cnt, "count_if counts the matches" );
    vf_assert( algorithm::any_of( a, neg, f, l ) == ( cnt > 0U ), "any_of" );
    vf_assert( algorithm::all_of( a, neg, f, l ) == ( cnt == ( l - f + 1U ) ), "all_of" );
    for ( int i = 0 ; i < N ; ++i ) { vf_assert( a[ i ] == b[ i ], "queries modify nothing" ); }
    vf_reach( "end" );
}
HARNESS( h_scan1 ) { scanning<1>(); }
HARNESS( h_scan3 ) { scanning<3>(); }
HARNESS( h_scan5 ) { scanning<5>(); }
template<int N, int WHAT> static void changing( void )
{
    T a[ N ], b[ N ]; fillArr<N>( a, b );
    size_t f, l; range<N>( f, l );
    const T x = val( "x", 0 ), y = val( "y", 0 );
    if ( 0 == WHAT ) { algorithm::fill( a, x, f, l ); }
    else if ( 1 == WHAT ) { algorithm::replace( a, x, y, f, l ); }
    else if ( 2 == WHAT ) { algorithm::replace_if( a, negr, y, f, l ); }
    else { algorithm::for_each( a, bump, f, l ); }
    for ( size_t i = 0U ; i < static_cast<size_t>( N ) ; ++i ) {
        T want = b[ i ];
        if ( ( i >= f ) && ( i <= l ) ) {
            if ( 0 == WHAT ) { want = x; }
            else if ( 1 == WHAT ) { want = ( b[ i ] == x ) ? y : b[ i ]; }
            else if ( 2 == WHAT ) { want = ( b[ i ] < 0 ) ? y : b[ i ]; }
            else { bump( want ); }
        }
        vf_assert( a[ i ] == want, "exactly the addressed elements change" );
    }
    vf_reach( "end" );
}
HARNESS( h_fill ) { changing<4,0>(); }
HARNESS( h_replace ) { changing<4,1>(); }
HARNESS( h_replace_if ) { changing<4,2>(); }
HARNESS( h_for_each ) { changing<4,3>(); }
template<int N> static void bsearch( void )
{
    T a[ N ], b[ N ]; fillArr<N>( a, b );
    for ( int i = 0 ; i + 1 < N ; ++i ) { vf_assume( a[ i ] <= a[ i + 1 ] ); }
    size_t f, l; range<N>( f, l );
    const T key = val( "key", 0 );
    bool any = false;
    for ( size_t i = 0U ; i < static_cast<size_t>( N ) ; ++i ) { any = any || ( ( i >= f ) && ( i <= l ) && ( b[ i ] == key ) ); }
    const T * const p = algorithm::binary_search( a, key, f, l );
    vf_assert( ( nullptr != p ) == any, "a key is found exactly when present" );
    if ( nullptr != p ) { vf_assert( ( p >= &a[ f ] ) && ( p <= &a[ l ] ) && ( *p == key ), "the entry found lies in the range and matches" ); }
    vf_reach( "end" );
}
HARNESS( h_bs1 ) { bsearch<1>(); }
HARNESS( h_bs2 ) { bsearch<2>(); }
HARNESS( h_bs3 ) { bsearch<3>(); }
HARNESS( h_bs5 ) { bsearch<5>(); }
HARNESS( h_swap ) { T x = val( "x", 0 ), y = val( "y", 0 ); const T u = x, v = y; algorithm::swap( x, y ); vf_assert( ( x == v ) && ( y == u ), "swap exchanges" ); algorithm::swap( x, x ); vf_assert( x == v, "self swap keeps" ); vf_reach( "end" ); }
