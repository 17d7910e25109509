/* Analysis intrinsics: never executed, interpreted by the static analyser. */
#ifndef VF_HPP
#define VF_HPP
#include <cstddef>
#include <cstdint>
extern "C" {
float    vf_real( const char *name );              /* any finite real        */
uint8_t  vf_u8( const char *name );
uint16_t vf_u16( const char *name );
uint32_t vf_u32( const char *name );
uint64_t vf_u64( const char *name );
float    vf_fbits( const char *name );             /* any of the 2^32 floats */
void     vf_pair32( const char *name, uint32_t *a, uint32_t *b );
void     vf_fpair( const char *name, float *a, float *b ); /* two arbitrary floats */
void     vf_assume( bool c );
void     vf_check( bool c, const char *what );
void     vf_eq( float got, float want, const char *what );
void     vf_eq_int( uint64_t got, uint64_t want, const char *what );
bool     vf_isnan( float x );
void    *vf_buf( size_t bytes, const char *name );   /* fresh buffer, exact bounds */
void     vf_forget( void *p, size_t n );
void     vf_same( const void *a, const void *b, size_t n, const char *what );
void     vf_havoc( void *p, size_t n, const char *name );  /* real-valued cells become arbitrary */
void     vf_same_ctl( const void *a, const void *b, size_t n, const char *what ); /* non-real cells agree */
void     vf_snapshot( void *d, const void *s, size_t n );
}
static inline float *vf_floats( size_t n, const char *name ) { return static_cast<float*>( vf_buf( n*sizeof(float), name ) ); }
#define ENTRY extern "C" void
#endif
