/* Entry points of the interval/affine analysis: one wrapper per public numeric function. */
#include <include/ffmath.hpp>
#include <include/fp16.hpp>
using namespace qlibs;
#define F1( f ) extern "C" float I_##f( float x ) { return ffmath::f( x ); }
#define F2( f ) extern "C" float I_##f( float x, float y ) { return ffmath::f( x, y ); }
#define F3( f ) extern "C" float I_##f( float x, float y, float z ) { return ffmath::f( x, y, z ); }
#define N1( f ) extern "C" float I_##f( size_t n, float x ) { return ffmath::f( n, x ); }
#define N2( f ) extern "C" float I_##f( size_t n, size_t m, float x ) { return ffmath::f( n, m, x ); }
F1( recip ) F1( sqrt ) F1( rSqrt ) F1( cbrt ) F1( rCbrt ) F1( rounding ) F1( floor ) F1( ceil ) F1( trunc ) F1( frac )
F1( sin ) F1( cos ) F1( tan ) F1( asin ) F1( acos ) F1( atan ) F1( exp2 ) F1( log2 ) F1( exp ) F1( expm1 ) F1( exp10 )
F1( log ) F1( log1p ) F1( log10 ) F1( sinh ) F1( cosh ) F1( tanh ) F1( asinh ) F1( acosh ) F1( atanh )
F1( wrapToPi ) F1( wrapTo2Pi ) F1( wrapTo180 ) F1( wrapTo360 ) F1( erf ) F1( erfc ) F1( tgamma ) F1( lgamma )
F1( factorial ) F1( comp_ellint_1 ) F1( comp_ellint_2 ) F1( expint ) F1( riemann_zeta ) F1( absf ) F1( sign )
F2( rem ) F2( mod ) F2( atan2 ) F2( pow ) F2( hypot ) F2( beta ) F2( comp_ellint_3 ) F2( ellint_1 ) F2( ellint_2 )
F2( midpoint ) F2( cyl_bessel_i ) F2( cyl_bessel_j ) F2( cyl_bessel_k ) F2( cyl_neumann )
F3( ellint_3 ) F3( lerp ) F3( normalize )
N1( hermite ) N1( laguerre ) N1( legendre ) N1( sph_bessel ) N1( sph_neumann )
N2( assoc_laguerre ) N2( assoc_legendre ) N2( sph_legendre )
extern "C" float I_ldexp( float x, int32_t n ) { return ffmath::ldexp( x, n ); }
extern "C" float I_rexp( float x ) { int32_t e = 0; return ffmath::rexp( x, &e ); }
extern "C" float I_rexp_e( float x ) { int32_t e = 0; (void)ffmath::rexp( x, &e ); return static_cast<float>( e ); }
extern "C" float I_nextUp( float x ) { return ffmath::nextAfter( x, ffmath::getInf() ); }
extern "C" float I_map( float x, float a, float b, float c, float d ) { return ffmath::map( x, a, b, c, d ); }
/* Q16.16: raw representations in and out */
#include <cstring>
static fp16 mk( const int32_t r ) { fp16 v; memcpy( &v, &r, sizeof( r ) ); return v; }
#define X1( f ) extern "C" int32_t I_fx_##f( int32_t x ) { return fp16::f( mk( x ) ).raw(); }
#define X2( f ) extern "C" int32_t I_fx_##f( int32_t x, int32_t y ) { return fp16::f( mk( x ), mk( y ) ).raw(); }
extern "C" int32_t I_fx_from( float x ) { return fp16::from( x ).raw(); }
extern "C" int32_t I_fx_fromd( float x ) { return fp16::from( static_cast<double>( x ) ).raw(); }
extern "C" int32_t I_fx_fromd3( float x ) { return fp16::from( static_cast<double>( x )/3.0 ).raw(); }
extern "C" int32_t I_fx_set( float x ) { fp16 v; v = x; return v.raw(); }
extern "C" int32_t I_fx_setd( float x ) { fp16 v; v = static_cast<double>( x ); return v.raw(); }
extern "C" int32_t I_fx_trip( int32_t x ) { return fp16::from( fp16::toFloat( mk( x ) ) ).raw(); }
extern "C" int32_t I_fx_tripd( int32_t x ) { return fp16::from( fp16::toDouble( mk( x ) ) ).raw(); }
X1( exp ) X1( log ) X1( log2 ) X1( sin ) X1( cos ) X1( tan ) X1( asin ) X1( acos ) X1( atan ) X1( sinh ) X1( cosh ) X1( tanh )
X1( radToDeg ) X1( degToRad ) X1( wrapToPi ) X1( wrapTo180 ) X2( atan2 ) X2( pow )
