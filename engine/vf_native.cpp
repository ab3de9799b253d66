/* Native side of the harness interface: replays a solver assignment against the real build. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <dlfcn.h>
#include <string>
#include <map>
static std::map<std::string, std::string> vals;
static bool quiet_near;
static const char *get( const char *n, int i ) {
    char k[ 256 ]; snprintf( k, sizeof k, "%s %d", n, i );
    auto it = vals.find( k );
    return it == vals.end() ? "0" : it->second.c_str();
}
static uint64_t geti( const char *n, int i ) { return strtoull( get( n, i ), nullptr, 0 ); }
extern "C" {
    float vf_nd_f32( const char *n, int i ) { const char *s = get( n, i );
        if ( s[0]=='0' && s[1]=='b' ) { uint32_t b = (uint32_t)strtoul( s + 2, nullptr, 16 ); float f; memcpy( &f, &b, 4 ); return f; }
        return strtof( s, nullptr ); }
    double vf_nd_f64( const char *n, int i ) { const char *s = get( n, i );
        if ( s[0]=='0' && s[1]=='b' ) { uint64_t b = strtoull( s + 2, nullptr, 16 ); double f; memcpy( &f, &b, 8 ); return f; }
        return strtod( s, nullptr ); }
    uint8_t  vf_nd_u8 ( const char *n, int i ) { return (uint8_t)geti( n, i ); }
    uint16_t vf_nd_u16( const char *n, int i ) { return (uint16_t)geti( n, i ); }
    uint32_t vf_nd_u32( const char *n, int i ) { return (uint32_t)geti( n, i ); }
    uint64_t vf_nd_u64( const char *n, int i ) { return geti( n, i ); }
    bool     vf_nd_b  ( const char *n, int i ) { return 0 != geti( n, i ); }
    void vf_assume( bool c ) { if ( !c ) { printf( "VF-ASSUME\n" ); fflush( stdout ); _Exit( 77 ); } }
    void vf_assert( bool c, const char *l ) { if ( !c ) { printf( "VF-FAIL %s\n", l ); fflush( stdout ); if ( !getenv( "VF_CONT" ) ) _Exit( 42 ); } }
    void vf_near( double a, double b, double tol, const char *l ) {
        double s = 1.0; if ( fabs( a ) > s ) s = fabs( a ); if ( fabs( b ) > s ) s = fabs( b );
        bool bad = !( fabs( a - b ) <= tol*s ) && !( a == b ) && !( isnan( a ) && isnan( b ) );
        if ( bad ) { printf( "VF-FAIL %s got=%.9g expected=%.9g\n", l, a, b ); fflush( stdout ); if ( !getenv( "VF_CONT" ) ) _Exit( 42 ); }
    }
    void vf_reach( const char * ) {}
    void vf_observe( const char *l, int i, double v ) { printf( "VF-OBS %s %d %a\n", l, i, v ); }
    float vf_fuf( const char *, float x ) { return x; }
}
int main( int argc, char **argv ) {
    if ( argc < 3 ) { return 2; }
    FILE *f = fopen( argv[ 2 ], "r" );
    if ( !f ) { return 2; }
    char n[ 256 ], v[ 256 ]; int i;
    while ( 3 == fscanf( f, "%255s %d %255s", n, &i, v ) ) {
        char k[ 300 ]; snprintf( k, sizeof k, "%s %d", n, i ); vals[ k ] = v;
    }
    fclose( f );
    void ( *h )( void ) = ( void (*)( void ) )dlsym( RTLD_DEFAULT, argv[ 1 ] );
    if ( !h ) { return 3; }
    h();
    printf( "VF-OK\n" );
    return 0;
}
