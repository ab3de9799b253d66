/* C02: a bit-field is an array of bits; every access reads/writes exactly the addressed bits. */
#include "vf.h"
#include <qlibs.h>
using namespace qlibs;
#ifdef VF_THOROUGH
#define SLOTS 4
#else
#define SLOTS 3
#endif
#define NBYTES ( SLOTS*4 )
#define NBITS  ( SLOTS*32 )

static inline bool bitOf( const uint8_t *a, size_t j ) { return 0U != ( ( a[ j >> 3U ] >> ( j & 7U ) ) & 1U ); }

struct ctx {
    alignas( 8 ) uint8_t area[ NBYTES ];
    uint8_t old[ NBYTES ];
    bitfield f;
};
static void init( ctx &c )
{
    for ( int i = 0 ; i < NBYTES ; ++i ) { c.old[ i ] = c.area[ i ] = vf_nd_u8( "mem", i ); }
    vf_assert( c.f.setup( c.area ), "setup of a valid area succeeds" );
}
static uint64_t expectBits( const ctx &c, size_t idx, size_t n )
{
    uint64_t r = 0;
    for ( size_t k = 0 ; k < 32 ; ++k ) {
        if ( ( k < n ) && ( ( idx + k ) < NBITS ) ) { r |= static_cast<uint64_t>( bitOf( c.old, idx + k ) ) << k; }
    }
    return r;
}
HARNESS( h_read )
{
    ctx c; init( c );
    const size_t idx = vf_nd_u64( "index", 0 ), n = vf_nd_u64( "nbits", 0 );
    vf_assume( idx < NBITS && n <= 32U );
    const uint32_t got = c.f.readUINTn( idx, n );
    vf_assert( got == expectBits( c, idx, n ), "n-bit read returns exactly the n addressed bits" );
    vf_assert( c.f.readBit( idx ) == bitOf( c.old, idx ), "bit read returns the addressed bit" );
    for ( int i = 0 ; i < NBYTES ; ++i ) { vf_assert( c.area[ i ] == c.old[ i ], "a read modifies nothing" ); }
    vf_observe( "r", 0, got );
    vf_reach( "end" );
}
HARNESS( h_write )
{
    ctx c; init( c );
    const size_t idx = vf_nd_u64( "index", 0 ), n = vf_nd_u64( "nbits", 0 ), j = vf_nd_u64( "probe", 0 );
    const uint32_t v = vf_nd_u32( "value", 0 );
    vf_assume( idx < NBITS && n >= 1U && n <= 32U && j < NBITS );
    vf_assert( c.f.writeUINTn( idx, n, v ), "n-bit write succeeds" );
    const bool in = ( j >= idx ) && ( j < ( idx + n ) );
    const bool want = in ? ( 0U != ( ( v >> ( ( j - idx ) & 31U ) ) & 1U ) ) : bitOf( c.old, j );
    const bool w1 = ( n == 1U ) && in ? ( 0U != v ) : want;
    vf_assert( bitOf( c.area, j ) == w1, "n-bit write sets the addressed bits and no other" );
    vf_assert( c.f.readBit( j ) == w1, "bits read back as written" );
    vf_observe( "b", 0, bitOf( c.area, j ) ? 1 : 0 );
    vf_reach( "end" );
}
HARNESS( h_roundtrip )
{
    ctx c; init( c );
    const size_t idx = vf_nd_u64( "index", 0 ), n = vf_nd_u64( "nbits", 0 );
    const uint32_t v = vf_nd_u32( "value", 0 );
    vf_assume( n >= 2U && n <= 32U && idx < NBITS && ( idx + n ) <= NBITS );
    (void)c.f.writeUINTn( idx, n, v );
    const uint32_t got = c.f.readUINTn( idx, n );
    vf_assert( got == ( v & ( 0xFFFFFFFFU >> ( 32U - n ) ) ), "n-bit value reads back as written" );
    vf_observe( "r", 0, got );
    vf_reach( "end" );
}
HARNESS( h_bitops )
{
    ctx c; init( c );
    const size_t idx = vf_nd_u64( "index", 0 ), j = vf_nd_u64( "probe", 0 );
    const uint32_t op = vf_nd_u32( "op", 0 );
    const bool val = vf_nd_b( "val", 0 );
    vf_assume( idx < NBITS && j < NBITS && op < 6U );
    bool ok = false, want = bitOf( c.old, j );
    switch ( op ) {
        case 0: ok = c.f.setBit( idx ); want = ( j == idx ) ? true : want; break;
        case 1: ok = c.f.clearBit( idx ); want = ( j == idx ) ? false : want; break;
        case 2: ok = c.f.toggleBit( idx ); want = ( j == idx ) ? !want : want; break;
        case 3: ok = c.f.writeBit( idx, val ); want = ( j == idx ) ? val : want; break;
        case 4: ok = c.f.setAll(); want = true; break;
        default: ok = c.f.clearAll(); want = false; break;
    }
    vf_assert( ok, "bit operation succeeds" );
    vf_assert( bitOf( c.area, j ) == want, "bit operation affects exactly the addressed bits" );
    vf_observe( "b", 0, want ? 1 : 0 );
    vf_reach( "end" );
}
HARNESS( h_float )
{
    ctx c; init( c );
    const size_t idx = vf_nd_u64( "index", 0 ), j = vf_nd_u64( "probe", 0 );
    vf_assume( idx < NBITS && ( idx + 32U ) <= NBITS && j < NBITS );
    const float x = vf_nd_f32( "x", 0 );
    uint32_t xb; memcpy( &xb, &x, 4 );
    const float r0 = c.f.readFloat( idx );
    uint32_t rb; memcpy( &rb, &r0, 4 );
    vf_assert( rb == expectBits( c, idx, 32 ), "float read returns the addressed 32 bits" );
    vf_assert( c.f.writeFloat( idx, x ), "float write succeeds" );
    const bool in = ( j >= idx ) && ( j < ( idx + 32U ) );
    vf_assert( bitOf( c.area, j ) == ( in ? ( 0U != ( ( xb >> ( ( j - idx ) & 31U ) ) & 1U ) ) : bitOf( c.old, j ) ), "float write sets the addressed bits and no other" );
    vf_reach( "end" );
}
HARNESS( h_dump )
{
    ctx c; init( c );
    uint8_t dst[ NBYTES + 4 ], was[ NBYTES + 4 ];
    for ( int i = 0 ; i < NBYTES + 4 ; ++i ) { was[ i ] = dst[ i ] = vf_nd_u8( "dst", i ); }
    const size_t n = vf_nd_u64( "n", 0 );
    void *r = c.f.dump( dst, n );
    vf_assert( r == ( ( n <= NBYTES ) ? static_cast<void*>( dst ) : nullptr ), "dump returns the destination iff the size fits" );
    for ( size_t i = 0 ; i < NBYTES + 4 ; ++i ) {
        const uint8_t src = ( i < NBYTES ) ? c.old[ i ] : 0U;
        const uint8_t want = ( ( n <= NBYTES ) && ( i < n ) ) ? src : was[ i ];
        vf_assert( dst[ i ] == want, "dump copies exactly the first n bytes" );
    }
    vf_assert( nullptr == c.f.dump( nullptr, n ), "dump to null is refused" );
    vf_reach( "end" );
}
HARNESS( h_unset )
{
    bitfield f;
    const size_t idx = vf_nd_u64( "index", 0 ), n = vf_nd_u64( "nbits", 0 );
    const uint32_t v = vf_nd_u32( "value", 0 );
    uint8_t dst[ 4 ];
    vf_assert( !f.setup( nullptr, n ) && !f.setup( dst, 0 ), "invalid areas are refused" );
    vf_assert( !f.setBit( idx ) && !f.clearBit( idx ) && !f.toggleBit( idx ) && !f.writeBit( idx, true ) && !f.readBit( idx ), "uninitialised: bit ops refused" );
    vf_assert( !f.setAll() && !f.clearAll() && !f.writeUINTn( idx, n, v ) && 0U == f.readUINTn( idx, n ), "uninitialised: n-bit ops refused" );
    vf_assert( !f.writeFloat( idx, 1.0f ) && ( 0.0f == f.readFloat( idx ) ) && ( nullptr == f.dump( dst, n ) ), "uninitialised: float/dump refused" );
    /* more than 32 bits is refused and changes nothing */
    ctx c; init( c );
    vf_assume( idx < NBITS && n > 32U );
    vf_assert( !c.f.writeUINTn( idx, n, v ) && ( 0U == c.f.readUINTn( idx, n ) ), "more than 32 bits is refused" );
    for ( int i = 0 ; i < NBYTES ; ++i ) { vf_assert( c.area[ i ] == c.old[ i ], "refused accesses modify nothing" ); }
    vf_reach( "end" );
}
