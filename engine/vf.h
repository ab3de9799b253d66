/* Harness interface.  In the symbolic run these calls are interpreted by engine/exec.py;
 * in the native replay they are implemented by engine/vf_native.cpp. */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
extern "C" {
    float    vf_nd_f32( const char *name, int idx );
    double   vf_nd_f64( const char *name, int idx );
    uint8_t  vf_nd_u8 ( const char *name, int idx );
    uint16_t vf_nd_u16( const char *name, int idx );
    uint32_t vf_nd_u32( const char *name, int idx );
    uint64_t vf_nd_u64( const char *name, int idx );
    bool     vf_nd_b  ( const char *name, int idx );
    void     vf_assume( bool c );
    void     vf_assert( bool c, const char *label );
    /* a equals b: exactly in the real-arithmetic model, within tol*max(1,|a|,|b|) natively */
    void     vf_near( double a, double b, double tol, const char *label );
    void     vf_reach( const char *label );
    void     vf_observe( const char *label, int idx, double v );
    float    vf_fuf( const char *fn, float x );
}
#define HARNESS( n ) extern "C" void n( void )
#endif
