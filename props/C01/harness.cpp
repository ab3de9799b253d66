/* C01: every CRC equals the bit-serial polynomial-division definition of its (documented) parameters. */
#include "vf.h"
#include <qlibs.h>
using namespace qlibs;

/* Bit-serial reference: one message bit at a time, register always kept to `w` bits. */
static uint32_t rev( uint32_t v, int w )
{
    uint32_t r = 0;
    for ( int i = 0 ; i < w ; ++i ) { r |= ( ( v >> i ) & 1U ) << ( w - 1 - i ); }
    return r;
}
static uint32_t ref( int w, const uint8_t *d, size_t n, uint32_t poly, uint32_t init, bool ri, bool ro, uint32_t xo )
{
    const uint32_t mask = 0xFFFFFFFFU >> ( 32 - w );
    uint32_t reg = init & mask;
    poly &= mask;
    for ( size_t i = 0 ; i < n ; ++i ) {
        for ( int b = 0 ; b < 8 ; ++b ) {
            const uint32_t bit = ri ? ( ( d[ i ] >> b ) & 1U ) : ( ( d[ i ] >> ( 7 - b ) ) & 1U );
            const uint32_t top = ( ( reg >> ( w - 1 ) ) & 1U ) ^ bit;
            reg = ( reg << 1 ) & mask;
            reg ^= ( 0U - top ) & poly;
        }
    }
    if ( ro ) { reg = rev( reg, w ); }
    return ( reg ^ xo ) & mask;
}
#ifdef VF_THOROUGH
#define NB 8
#define NN 6
#define NLONG 2100
#else
#define NB 4
#define NN 3
#define NLONG 264
#endif

static void gen( int w, crcMode m )
{
    uint8_t d[ NB ];
    for ( int i = 0 ; i < NB ; ++i ) { d[ i ] = vf_nd_u8( "d", i ); }
    const size_t n = vf_nd_u64( "n", 0 );
    vf_assume( n >= 1 && n <= NB );
    const uint32_t poly = vf_nd_u32( "poly", 0 ), init = vf_nd_u32( "init", 0 ), xo = vf_nd_u32( "xorOut", 0 );
    const bool ri = vf_nd_b( "refIn", 0 ), ro = vf_nd_b( "refOut", 0 );
    uint8_t c[ NB ]; memcpy( c, d, NB );
    const uint32_t got = crc::generic( m, d, n, poly, init, ri, ro, xo );
    const uint32_t want = ref( w, c, n, poly, init, ri, ro, xo );
    vf_assert( got == want, "crc of generic parameters equals polynomial division" );
    for ( int i = 0 ; i < NB ; ++i ) { vf_assert( d[ i ] == c[ i ], "message bytes are not modified" ); }
    vf_observe( "crc", 0, got );
    vf_reach( "end" );
}
HARNESS( h_gen8 )  { gen( 8, CRC8 ); }
HARNESS( h_gen16 ) { gen( 16, CRC16 ); }
HARNESS( h_gen32 ) { gen( 32, CRC32 ); }

/* long messages: the first and the last byte are arbitrary, the middle is a fixed pattern */
static void longm( int w, crcMode m, uint32_t poly, uint32_t init, bool r, uint32_t xo )
{
    static uint8_t d[ NLONG ];
    for ( int i = 0 ; i < NLONG ; ++i ) { d[ i ] = static_cast<uint8_t>( i*7 + 3 ); }
    d[ NLONG - 2 ] = vf_nd_u8( "a", 0 );
    d[ NLONG - 1 ] = vf_nd_u8( "z", 0 );
    const uint32_t got = crc::generic( m, d, NLONG, poly, init, r, r, xo );
    vf_assert( got == ref( w, d, NLONG, poly, init, r, r, xo ), "crc of a long message equals polynomial division" );
    vf_observe( "crc", 0, got );
    vf_reach( "end" );
}
HARNESS( h_long8 )  { longm( 8, CRC8, 0x31U, 0xFFU, true, 0U ); }
HARNESS( h_long16 ) { longm( 16, CRC16, 0x1021U, 0xFFFFU, false, 0U ); }
HARNESS( h_long32 ) { longm( 32, CRC32, 0x04C11DB7U, 0xFFFFFFFFU, true, 0xFFFFFFFFU ); }

/* defaulted arguments, empty input, invalid mode */
HARNESS( h_edge )
{
    uint8_t d[ 2 ] = { vf_nd_u8( "d", 0 ), vf_nd_u8( "d", 1 ) };
    const uint32_t poly = vf_nd_u32( "poly", 0 ), init = vf_nd_u32( "init", 0 ), xo = vf_nd_u32( "xorOut", 0 );
    const bool ri = vf_nd_b( "refIn", 0 ), ro = vf_nd_b( "refOut", 0 );
    const uint32_t mode = vf_nd_u32( "mode", 0 );
    const size_t n = vf_nd_u64( "n", 0 );
    vf_assume( mode <= 2U );
    vf_assert( 0U == crc::generic( static_cast<crcMode>( mode ), nullptr, n, poly, init, ri, ro, xo ), "null data gives 0" );
    vf_assert( 0U == crc::generic( static_cast<crcMode>( mode ), d, 0U, poly, init, ri, ro, xo ), "empty data gives 0" );
    const int w = ( 0 == mode ) ? 8 : ( ( 1 == mode ) ? 16 : 32 );
    vf_assert( crc::generic( static_cast<crcMode>( mode ), d, 2U, poly ) == ref( w, d, 2U, poly, 0U, false, false, 0U ), "defaulted parameters are zero/false" );
    vf_assert( ( w == 32 ) || ( 0U == ( crc::generic( static_cast<crcMode>( mode ), d, 2U, poly, init, ri, ro, xo ) >> w ) ), "result fits the selected width" );
    vf_reach( "end" );
}

#define NAMED( fn, w, poly, init, ri, ro, xo ) \
    vf_assert( crc::fn( d, n ) == ref( w, d, n, poly, init, ri, ro, xo ), #fn " matches its documented parameters" );
#define PRE() \
    uint8_t d[ NN ]; \
    for ( int i = 0 ; i < NN ; ++i ) { d[ i ] = vf_nd_u8( "d", i ); } \
    const size_t n = vf_nd_u64( "n", 0 ); \
    vf_assume( n >= 1 && n <= NN );
HARNESS( h_named8_0 )
{
    PRE()
    NAMED( crc8, 8, 0x07U, 0x00U, false, false, 0x00U )
    NAMED( crc8_CDMA2000, 8, 0x9BU, 0xFFU, false, false, 0x00U )
    NAMED( crc8_DARC, 8, 0x39U, 0x00U, true, true, 0x00U )
    NAMED( crc8_DVS_S2, 8, 0xD5U, 0x00U, false, false, 0x00U )
    NAMED( crc8_EBU, 8, 0x1DU, 0xFFU, true, true, 0x00U )
    NAMED( crc8_I_CODE, 8, 0x1DU, 0xFDU, false, false, 0x00U )
    vf_reach( "end" );
}
HARNESS( h_named8_1 )
{
    PRE()
    NAMED( crc8_ITU, 8, 0x07U, 0x00U, false, false, 0x55U )
    NAMED( crc8_MAXIM, 8, 0x31U, 0x00U, true, true, 0x00U )
    NAMED( crc8_ROHC, 8, 0x07U, 0xFFU, true, true, 0x00U )
    NAMED( crc8_WCDMA, 8, 0x9BU, 0x00U, true, true, 0x00U )
    vf_reach( "end" );
}
HARNESS( h_named16_0 )
{
    PRE()
    NAMED( crc16_CCITT_FALSE, 16, 0x1021U, 0xFFFFU, false, false, 0x0000U )
    NAMED( crc16_ARC, 16, 0x8005U, 0x0000U, true, true, 0x0000U )
    NAMED( crc16_AUG_CCITT, 16, 0x1021U, 0x1D0FU, false, false, 0x0000U )
    NAMED( crc16_BUYPASS, 16, 0x8005U, 0x0000U, false, false, 0x0000U )
    NAMED( crc16_CDMA2000, 16, 0xC867U, 0xFFFFU, false, false, 0x0000U )
    NAMED( crc16_DDS_110, 16, 0x8005U, 0x800DU, false, false, 0x0000U )
    vf_reach( "end" );
}
HARNESS( h_named16_1 )
{
    PRE()
    NAMED( crc16_DECT_R, 16, 0x0589U, 0x0000U, false, false, 0x0001U )
    NAMED( crc16_DECT_X, 16, 0x0589U, 0x0000U, false, false, 0x0000U )
    NAMED( crc16_DNP, 16, 0x3D65U, 0x0000U, true, true, 0xFFFFU )
    NAMED( crc16_EN_13757, 16, 0x3D65U, 0x0000U, false, false, 0xFFFFU )
    NAMED( crc16_GENIBUS, 16, 0x1021U, 0xFFFFU, false, false, 0xFFFFU )
    NAMED( crc16_MAXIM, 16, 0x8005U, 0x0000U, true, true, 0xFFFFU )
    vf_reach( "end" );
}
HARNESS( h_named16_2 )
{
    PRE()
    NAMED( crc16_MCRF4XX, 16, 0x1021U, 0xFFFFU, true, true, 0x0000U )
    NAMED( crc16_RIELLO, 16, 0x1021U, 0xB2AAU, true, true, 0x0000U )
    NAMED( crc16_T10_DIF, 16, 0x8bb7U, 0x0000U, false, false, 0x0000U )
    NAMED( crc16_TELEDISK, 16, 0xA097U, 0x0000U, false, false, 0x0000U )
    NAMED( crc16_TMS37157, 16, 0x1021U, 0x89ECU, true, true, 0x000U )
    NAMED( crc16_USB, 16, 0x8005U, 0xFFFFU, true, true, 0xFFFFU )
    vf_reach( "end" );
}
HARNESS( h_named16_3 )
{
    PRE()
    NAMED( crc16_A, 16, 0x1021U, 0xC6C6U, true, true, 0x0000U )
    NAMED( crc16_KERMIT, 16, 0x1021U, 0x0000U, true, true, 0x000U )
    NAMED( crc16_MODBUS, 16, 0x8005U, 0xFFFFU, true, true, 0x0000U )
    NAMED( crc16_X_25, 16, 0x1021U, 0xFFFFU, true, true, 0xFFFFU )
    NAMED( crc16_XMODEM, 16, 0x1021U, 0x0000U, false, false, 0x0000U )
    vf_reach( "end" );
}
HARNESS( h_named32_0 )
{
    PRE()
    NAMED( crc32, 32, 0x04C11DB7U, 0xFFFFFFFFU, true, true, 0xFFFFFFFFU )
    NAMED( crc32_BZIP2, 32, 0x04C11DB7U, 0xFFFFFFFFU, false, false, 0xFFFFFFFFU )
    NAMED( crc32_C, 32, 0x1EDC6F41U, 0xFFFFFFFFU, true, true, 0xFFFFFFFFU )
    NAMED( crc32_D, 32, 0xA833982BU, 0xFFFFFFFFU, true, true, 0xFFFFFFFFU )
    NAMED( crc32_JAMCRC, 32, 0x04C11DB7U, 0xFFFFFFFFU, true, true, 0x00000000U )
    NAMED( crc32_MPEG2, 32, 0x04C11DB7U, 0xFFFFFFFFU, false, false, 0x00000000U )
    vf_reach( "end" );
}
HARNESS( h_named32_1 )
{
    PRE()
    NAMED( crc32_POSIX, 32, 0x04C11DB7U, 0x00000000U, false, false, 0xFFFFFFFFU )
    NAMED( crc32_Q, 32, 0x814141ABU, 0x00000000U, false, false, 0x00000000U )
    NAMED( crc32_XFER, 32, 0x000000AFU, 0x00000000U, false, false, 0x00000000U )
    vf_reach( "end" );
}
