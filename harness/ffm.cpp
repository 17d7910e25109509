#include "vf.hpp"
#include <cstring>
#include <include/ffmath.hpp>
using namespace qlibs;

static uint32_t bits( const float f ) { uint32_t u; memcpy( &u, &f, sizeof( u ) ); return u; }
static float flt( const uint32_t u ) { float f; memcpy( &f, &u, sizeof( f ) ); return f; }
static const uint32_t SGN = 0x80000000U, MAG = 0x7FFFFFFFU, INFB = 0x7F800000U;

/* same value: zero signs do not matter, any NaN is a NaN */
static void eqf( const float got, const uint32_t want, const char *what )
{
    const uint32_t g = bits( got );
    if ( ( want & MAG ) > INFB ) {
        vf_check( ( g & MAG ) > INFB, what );
    }
    else {
        vf_eq_int( ( ( g & MAG ) == 0U ) ? 0U : g, ( ( want & MAG ) == 0U ) ? 0U : want, what );
    }
}
/* ---------------------------------------------------------------- classes */
ENTRY H_ffm_class()
{
    const float x = vf_fbits( "x" );
    const uint32_t u = bits( x ), e = ( u >> 23 ) & 0xFFU, m = u & 0x7FFFFFU;
    const bool nan = ( e == 255U ) && ( m != 0U ), inf = ( e == 255U ) && ( m == 0U );
    const bool zero = ( e == 0U ) && ( m == 0U ), sub = ( e == 0U ) && ( m != 0U );
    const ffmath::classification c = ffmath::classify( x );
    vf_eq_int( c == ffmath::classification::FFP_ZERO, zero, "zero is classified as zero" );
    vf_eq_int( c == ffmath::classification::FFP_SUBNORMAL, sub, "subnormal values are classified as such" );
    vf_eq_int( c == ffmath::classification::FFP_NORMAL, !zero && !sub && !nan && !inf, "normal values are classified as such" );
    vf_eq_int( c == ffmath::classification::FFP_INFINITE, inf, "infinities are classified as such" );
    vf_eq_int( c == ffmath::classification::FFP_NAN, nan, "NaN is classified as such" );
    vf_eq_int( ffmath::isNan( x ), nan, "isNan" );
    vf_eq_int( ffmath::isInf( x ), inf, "isInf" );
    vf_eq_int( ffmath::isFinite( x ), !nan && !inf, "isFinite" );
    vf_eq_int( ffmath::isNormal( x ), !zero && !sub && !nan && !inf, "isNormal" );
    vf_eq_int( bits( ffmath::getInf() ), INFB, "getInf is positive infinity" );
    vf_check( ( bits( ffmath::getNan() ) & MAG ) > INFB, "getNan is a NaN" );
}
ENTRY H_ffm_sign()
{
    const float x = vf_fbits( "x" ), y = vf_fbits( "y" );
    const uint32_t u = bits( x ), v = bits( y );
    eqf( ffmath::absf( x ), u & MAG, "absf clears the sign" );
    vf_eq_int( bits( ffmath::absf( x ) ) >> 31, 0, "absf clears the sign of zero as well" );
    const uint32_t w = bits( ffmath::copysign( x, y ) );
    vf_eq_int( w, ( u & MAG ) | ( v & SGN ), "copysign takes the magnitude of one and the sign of the other" );
    const bool nan = ( u & MAG ) > INFB, zero = ( u & MAG ) == 0U;
    eqf( ffmath::sign( x ), nan ? 0x7FC00000U : ( zero ? 0U : ( ( u & SGN ) | 0x3F800000U ) ), "sign is -1, 0 or 1" );
}
/* --------------------------------------------------------------- rounding */
/* magnitude rounded towards zero; frac and half tell what was cut off */
static uint32_t cut( const uint32_t a, uint32_t &unit, bool &frac, bool &half )
{
    uint32_t r = a;
    unit = 0U;
    frac = false;
    half = false;
    if ( a < 0x3F800000U ) {
        r = 0U;
        frac = ( a != 0U );
        half = ( a >= 0x3F000000U );
    }
    for ( uint32_t k = 0U ; k < 23U ; ++k ) {
        if ( ( a >> 23 ) == ( 127U + k ) ) {
            const uint32_t m = 0x7FFFFFU >> k;
            r = a & ~m;
            unit = 0x800000U >> k;
            frac = ( a & m ) != 0U;
            half = ( a & ( 0x400000U >> k ) ) != 0U;
        }
    }
    return r;
}
static uint32_t up( const uint32_t r, const uint32_t unit ) { return ( r == 0U ) ? 0x3F800000U : ( r + unit ); }
ENTRY H_ffm_trunc()
{
    const float x = vf_fbits( "x" );
    const uint32_t u = bits( x ), s = u & SGN;
    uint32_t unit;
    bool frac, half;
    const uint32_t r = cut( u & MAG, unit, frac, half );
    eqf( ffmath::trunc( x ), s | r, "trunc removes the fraction" );
}
ENTRY H_ffm_floor()
{
    const float x = vf_fbits( "x" );
    const uint32_t u = bits( x ), s = u & SGN;
    uint32_t unit;
    bool frac, half;
    const uint32_t r = cut( u & MAG, unit, frac, half );
    eqf( ffmath::floor( x ), s | ( ( frac && ( s != 0U ) ) ? up( r, unit ) : r ), "floor is the largest integer not above x" );
}
ENTRY H_ffm_ceil()
{
    const float x = vf_fbits( "x" );
    const uint32_t u = bits( x ), s = u & SGN;
    uint32_t unit;
    bool frac, half;
    const uint32_t r = cut( u & MAG, unit, frac, half );
    eqf( ffmath::ceil( x ), s | ( ( frac && ( s == 0U ) ) ? up( r, unit ) : r ), "ceil is the smallest integer not below x" );
}
ENTRY H_ffm_round()
{
    const float x = vf_fbits( "x" );
    const uint32_t u = bits( x ), s = u & SGN;
    uint32_t unit;
    bool frac, half;
    const uint32_t r = cut( u & MAG, unit, frac, half );
    eqf( ffmath::rounding( x ), s | ( half ? up( r, unit ) : r ), "rounding gives the nearest integer, halves away from zero" );
}
/* --------------------------------------------------------------- neighbours */
ENTRY H_ffm_next()
{
    float x, y;
    vf_fpair( "xy", &x, &y );
    const uint32_t u = bits( x ), v = bits( y );
    const bool nan = ( ( u & MAG ) > INFB ) || ( ( v & MAG ) > INFB );
    /* position on the line of ordered floats, both zeros at 0 */
    const int32_t p = ( ( u & SGN ) != 0U ) ? -static_cast<int32_t>( u & MAG ) : static_cast<int32_t>( u & MAG );
    const int32_t q = ( ( v & SGN ) != 0U ) ? -static_cast<int32_t>( v & MAG ) : static_cast<int32_t>( v & MAG );
    const int32_t r = ( p < q ) ? ( p + 1 ) : ( ( p > q ) ? ( p - 1 ) : p );
    const uint32_t w = ( r < 0 ) ? ( SGN | static_cast<uint32_t>( -r ) ) : static_cast<uint32_t>( r );
    eqf( ffmath::nextAfter( x, y ), nan ? 0x7FC00000U : w, "nextAfter is the adjacent float in the direction of y" );
}
ENTRY H_ffm_rexp()
{
    const float x = vf_fbits( "x" );
    const uint32_t u = bits( x ), e = ( u >> 23 ) & 0xFFU;
    vf_assume( ( e != 0U ) && ( e != 255U ) );
    int32_t n = 12345;
    const float m = ffmath::rexp( x, &n );
    vf_eq_int( static_cast<uint32_t>( n ), e - 126U, "the exponent of rexp" );
    vf_eq_int( bits( m ), ( u & 0x807FFFFFU ) | 0x3F000000U, "the mantissa of rexp lies in [0.5,1) and keeps sign and digits" );
    n = 12345;
    vf_eq_int( bits( ffmath::rexp( 0.0F, &n ) ), 0U, "rexp of zero" );
    vf_eq_int( static_cast<uint32_t>( n ), 0U, "rexp of zero has exponent zero" );
}
ENTRY H_ffm_ldexp()
{
    const float x = vf_real( "x" );
    for ( int32_t n = -240 ; n <= 240 ; n += ( ( n > -130 ) && ( n < 130 ) ) ? 3 : 11 ) {
        float w = x;
        for ( int32_t i = 0 ; i < 240 ; ++i ) {
            if ( i < n ) {
                w = w*2.0F;
            }
            if ( i < -n ) {
                w = w*0.5F;
            }
        }
        vf_eq( ffmath::ldexp( x, n ), w, "ldexp scales by the power of two" );
    }
}
/* ----------------------------------------------------------- order helpers */
ENTRY H_ffm_minmax()
{
    const float a = vf_real( "a" ), b = vf_real( "b" ), c = vf_real( "c" ), d = vf_real( "d" );
    vf_eq( ffmath::Max( a ), a, "Max of one" );
    vf_eq( ffmath::Min( a ), a, "Min of one" );
    const float M = ffmath::Max( a, b, c, d ), m = ffmath::Min( a, b, c, d );
    vf_check( ( M >= a ) && ( M >= b ) && ( M >= c ) && ( M >= d ), "Max is not below any argument" );
    vf_check( ( M == a ) || ( M == b ) || ( M == c ) || ( M == d ), "Max is one of the arguments" );
    vf_check( ( m <= a ) && ( m <= b ) && ( m <= c ) && ( m <= d ), "Min is not above any argument" );
    vf_check( ( m == a ) || ( m == b ) || ( m == c ) || ( m == d ), "Min is one of the arguments" );
    const float M2 = ffmath::Max( a, b ), m2 = ffmath::Min( a, b );
    vf_eq( M2, ( a > b ) ? a : b, "Max of two" );
    vf_eq( m2, ( a > b ) ? b : a, "Min of two" );
}
ENTRY H_ffm_minmax_int()
{
    uint32_t a, b;
    vf_pair32( "ab", &a, &b );
    const int32_t x = static_cast<int32_t>( a ), y = static_cast<int32_t>( b );
    vf_eq_int( static_cast<uint32_t>( ffmath::Max( x, y ) ), static_cast<uint32_t>( ( x > y ) ? x : y ), "Max of integers" );
    vf_eq_int( static_cast<uint32_t>( ffmath::Min( x, y ) ), static_cast<uint32_t>( ( x > y ) ? y : x ), "Min of integers" );
    vf_eq_int( static_cast<uint32_t>( ffmath::Max( x, y, 7 ) ), static_cast<uint32_t>( ( ( x > y ) ? x : y ) > 7 ? ( ( x > y ) ? x : y ) : 7 ), "Max of three integers" );
}
ENTRY H_ffm_equal()
{
    const float a = vf_real( "a" ), b = vf_real( "b" ), t = vf_real( "t" );
    const float d = ( a > b ) ? ( a - b ) : ( b - a ), w = ( t < 0.0F ) ? -t : t;
    vf_eq_int( ffmath::isEqual( a, b, t ), d <= w, "isEqual compares the distance with the tolerance" );
    vf_eq_int( ffmath::isEqual( a, b ), d <= 1.175494351e-38F, "the default tolerance is the smallest normal float" );
    vf_check( ffmath::isEqual( a, a ), "a value equals itself" );
}
/* --------------------------------------------------- interpolation, regions */
ENTRY H_ffm_midpoint()
{
    const float a = vf_real( "a" ), b = vf_real( "b" );
    const float e = ( 2.0F*ffmath::midpoint( a, b ) ) - ( a + b );
    vf_check( ( e <= 8.0F*1.175494351e-38F ) && ( e >= -8.0F*1.175494351e-38F ), "midpoint is half the sum" );
}
ENTRY H_ffm_map()
{
    const float x = vf_real( "x" ), a = vf_real( "a" ), b = vf_real( "b" ), c = vf_real( "c" ), d = vf_real( "d" );
    vf_assume( a != b );
    vf_eq( ffmath::normalize( x, a, b )*( b - a ), x - a, "normalize is the relative position" );
    vf_eq( ffmath::normalize( a, a, b ), 0.0F, "the lower limit normalizes to 0" );
    vf_eq( ffmath::normalize( b, a, b ), 1.0F, "the upper limit normalizes to 1" );
    vf_eq( ( ffmath::map( x, a, b, c, d ) - c )*( b - a ), ( d - c )*( x - a ), "map is linear" );
    vf_eq( ffmath::map( a, a, b, c, d ), c, "the lower limit maps to the lower limit" );
    vf_eq( ffmath::map( b, a, b, c, d ), d, "the upper limit maps to the upper limit" );
}
ENTRY H_ffm_coerce()
{
    float x = vf_real( "x" );
    const float x0 = x, l = vf_real( "l" ), u = vf_real( "u" );
    vf_assume( l <= u );
    const bool r = ffmath::inRangeCoerce( x, l, u );
    vf_eq_int( r, ( x0 >= l ) && ( x0 <= u ), "the result tells whether the value was in range" );
    vf_eq( x, ( x0 < l ) ? l : ( ( x0 > u ) ? u : x0 ), "the value is limited to the range" );
}
ENTRY H_ffm_coerce_bits()
{
    float x = vf_fbits( "x" );
    const uint32_t u = bits( x );
    const bool nan = ( u & MAG ) > INFB;
    const bool below = !nan && ( x < -2.5F ), above = !nan && ( x > 7.0F );
    const bool r = ffmath::inRangeCoerce( x, -2.5F, 7.0F );
    vf_eq_int( r, !nan && !below && !above, "NaN and infinities are out of range" );
    vf_eq_int( bits( x ), ( nan || below ) ? bits( -2.5F ) : ( above ? bits( 7.0F ) : u ), "NaN becomes the lower limit" );
}
ENTRY H_ffm_circle()
{
    const float x = vf_real( "x" ), y = vf_real( "y" ), cx = vf_real( "cx" ), cy = vf_real( "cy" ), r = vf_real( "r" );
    const float d = ( ( x - cx )*( x - cx ) ) + ( ( y - cy )*( y - cy ) );
    vf_eq_int( ffmath::inCircle( x, y, cx, cy, r ), d <= r*r, "inside the circle, the border included" );
}
ENTRY H_ffm_lerp()
{
    const float a = vf_real( "a" ), b = vf_real( "b" ), t = vf_real( "t" );
    const float d = t - 1.0F;
    vf_assume( ( d == 0.0F ) || ( d > 1.0e-20F ) || ( d < -1.0e-20F ) );
    vf_eq( ffmath::lerp( a, b, t ), a + t*( b - a ), "lerp is the linear interpolation" );
}
ENTRY H_ffm_lerp_ends()
{
    const float a = vf_real( "a" ), b = vf_real( "b" );
    vf_eq( ffmath::lerp( a, b, 0.0F ), a, "lerp starts at the first value" );
    vf_eq( ffmath::lerp( a, b, 1.0F ), b, "lerp ends at the second value" );
    vf_eq( 2.0F*ffmath::lerp( a, b, 0.5F ), a + b, "half way" );
}
/* ---------------------------------------------------------------- constants */
static void near( const float got, const double want, const char *what )
{
    const double w = static_cast<double>( got ) - want;
    const double t = ( want < 0.0 ? -want : want )*6.0e-8;
    vf_check( ( w <= t ) && ( -w <= t ), what );
}
ENTRY H_ffm_const()
{
    near( ffmath::FFP_E, 2.7182818284590452, "e" );
    near( ffmath::FFP_LOG2E, 1.4426950408889634, "log2 e" );
    near( ffmath::FFP_LOG10E, 0.43429448190325183, "log10 e" );
    near( ffmath::FFP_LN2, 0.69314718055994531, "ln 2" );
    near( ffmath::FFP_LN10, 2.3025850929940457, "ln 10" );
    near( ffmath::FFP_PI, 3.1415926535897932, "pi" );
    near( ffmath::FFP_2PI, 6.2831853071795865, "2 pi" );
    near( ffmath::FFP_PI_2, 1.5707963267948966, "pi/2" );
    near( ffmath::FFP_PI_4, 0.78539816339744831, "pi/4" );
    near( ffmath::FFP_1_PI, 0.31830988618379067, "1/pi" );
    near( ffmath::FFP_2_PI, 0.63661977236758134, "2/pi" );
    near( ffmath::FFP_1_SQRTPI, 0.56418958354775629, "1/sqrt pi" );
    near( ffmath::FFP_2_SQRTPI, 1.1283791670955126, "2/sqrt pi" );
    near( ffmath::FFP_SQRT2, 1.4142135623730950, "sqrt 2" );
    near( ffmath::FFP_SQRT3, 1.7320508075688773, "sqrt 3" );
    near( ffmath::FFP_SQRT1_2, 0.70710678118654752, "sqrt 1/2" );
    near( ffmath::FFP_SQRT1_3, 0.57735026918962576, "sqrt 1/3" );
    near( ffmath::FFP_LN_SQRT_2PI, 0.91893853320467274, "ln sqrt 2 pi" );
    near( ffmath::FFP_GAMMA_E, 0.57721566490153286, "Euler gamma" );
    near( ffmath::FFP_PHI, 1.6180339887498948, "golden ratio" );
    near( ffmath::FFP_RADIAN, 57.295779513082321, "radian" );
    near( ffmath::FFP_LOG10_2, 0.30102999566398120, "log10 2" );
    near( ffmath::FFP_LN_PI, 1.1447298858494002, "ln pi" );
    near( ffmath::numbers::e(), 2.7182818284590452, "numbers::e" );
    near( ffmath::numbers::log2e(), 1.4426950408889634, "numbers::log2e" );
    near( ffmath::numbers::log10e(), 0.43429448190325183, "numbers::log10e" );
    near( ffmath::numbers::ln2(), 0.69314718055994531, "numbers::ln2" );
    near( ffmath::numbers::ln10(), 2.3025850929940457, "numbers::ln10" );
    near( ffmath::numbers::pi(), 3.1415926535897932, "numbers::pi" );
    near( ffmath::numbers::inv_pi(), 0.31830988618379067, "numbers::inv_pi" );
    near( ffmath::numbers::inv_sqrtpi(), 0.56418958354775629, "numbers::inv_sqrtpi" );
    near( ffmath::numbers::sqrt2(), 1.4142135623730950, "numbers::sqrt2" );
    near( ffmath::numbers::sqrt3(), 1.7320508075688773, "numbers::sqrt3" );
    near( ffmath::numbers::inv_sqrt2(), 0.70710678118654752, "numbers::inv_sqrt2" );
    near( ffmath::numbers::inv_sqrt3(), 0.57735026918962576, "numbers::inv_sqrt3" );
    near( ffmath::numbers::egamma(), 0.57721566490153286, "numbers::egamma" );
    near( ffmath::numbers::phi(), 1.6180339887498948, "numbers::phi" );
    near( ffmath::numbers::twice_pi(), 6.2831853071795865, "numbers::twice_pi" );
    near( ffmath::numbers::half_pi(), 1.5707963267948966, "numbers::half_pi" );
    near( ffmath::numbers::quarter_pi(), 0.78539816339744831, "numbers::quarter_pi" );
    near( ffmath::numbers::radian(), 57.295779513082321, "numbers::radian" );
    near( ffmath::numbers::lnpi(), 1.1447298858494002, "numbers::lnpi" );
    near( ffmath::numbers::ln_sqrt_2pi(), 0.91893853320467274, "numbers::ln_sqrt_2pi" );
}
/* ------------------------------------------------------------- polynomials */
static float poly( const float *c, const size_t n, const float x )
{
    float y = 0.0F;
    for ( size_t i = n + 1U ; i > 0U ; --i ) {
        y = ( y*x ) + c[ i - 1U ];
    }
    return y;
}
static float binom( const size_t n, const size_t k )
{
    float r = 1.0F;
    for ( size_t i = 1U ; i <= k ; ++i ) {
        r = r*static_cast<float>( n + 1U - i )/static_cast<float>( i );
    }
    return r;
}
static float fac( const size_t n )
{
    float r = 1.0F;
    for ( size_t i = 2U ; i <= n ; ++i ) {
        r = r*static_cast<float>( i );
    }
    return r;
}
static float pw( const float b, const size_t n )
{
    float r = 1.0F;
    for ( size_t i = 0U ; i < n ; ++i ) {
        r = r*b;
    }
    return r;
}
ENTRY H_ffm_hermite()
{
    const float x = vf_real( "x" );
    for ( size_t n = 0U ; n <= 9U ; ++n ) {
        float c[ 10 ] = { 0 };
        for ( size_t m = 0U ; 2U*m <= n ; ++m ) {
            const float s = ( ( m % 2U ) == 1U ) ? -1.0F : 1.0F;
            c[ n - 2U*m ] = s*fac( n )*pw( 2.0F, n - 2U*m )/( fac( m )*fac( n - 2U*m ) );
        }
        vf_eq( ffmath::hermite( n, x ), poly( c, n, x ), "the physicists' Hermite polynomial" );
    }
}
ENTRY H_ffm_laguerre()
{
    const float x = vf_real( "x" );
    vf_assume( ( x == 0.0F ) || ( x > 1.0e-30F ) );
    for ( size_t n = 0U ; n <= 7U ; ++n ) {
        float c[ 8 ] = { 0 };
        for ( size_t k = 0U ; k <= n ; ++k ) {
            c[ k ] = ( ( ( k % 2U ) == 1U ) ? -1.0F : 1.0F )*binom( n, k )/fac( k );
        }
        vf_eq( ffmath::laguerre( n, x ), poly( c, n, x ), "the Laguerre polynomial" );
    }
}
ENTRY H_ffm_assoc_laguerre()
{
    const float x = vf_real( "x" );
    vf_assume( ( x == 0.0F ) || ( x > 1.0e-30F ) );
    for ( size_t n = 0U ; n <= 5U ; ++n ) {
        for ( size_t m = 0U ; m <= 4U ; ++m ) {
            float c[ 6 ] = { 0 };
            for ( size_t k = 0U ; k <= n ; ++k ) {
                c[ k ] = ( ( ( k % 2U ) == 1U ) ? -1.0F : 1.0F )*binom( n + m, n - k )/fac( k );
            }
            vf_eq( ffmath::assoc_laguerre( n, m, x ), poly( c, n, x ), "the associated Laguerre polynomial" );
        }
    }
}
static void leg( const size_t n, float *c )
{
    for ( size_t k = 0U ; k <= n ; ++k ) {
        c[ k ] = 0.0F;
    }
    for ( size_t k = 0U ; 2U*k <= n ; ++k ) {
        c[ n - 2U*k ] = ( ( ( k % 2U ) == 1U ) ? -1.0F : 1.0F )*binom( n, k )*binom( 2U*n - 2U*k, n )/pw( 2.0F, n );
    }
}
static float legx( const char *name )
{
    const float x = vf_real( name );
    const float e = 1.0e-20F;
    vf_assume( ( x == 1.0F ) || ( x == -1.0F ) || ( ( ( x > 1.0F + e ) || ( x < 1.0F - e ) ) && ( ( x > -1.0F + e ) || ( x < -1.0F - e ) ) ) );
    return x;
}
ENTRY H_ffm_legendre()
{
    const float x = legx( "x" );
    for ( size_t n = 0U ; n <= 8U ; ++n ) {
        float c[ 9 ];
        leg( n, c );
        vf_eq( ffmath::legendre( n, x ), poly( c, n, x ), "the Legendre polynomial" );
    }
}
ENTRY H_ffm_assoc_legendre0()
{
    const float x = legx( "x" );
    vf_assume( ( x <= 1.0F ) && ( x >= -1.0F ) );
    for ( size_t n = 0U ; n <= 8U ; ++n ) {
        float c[ 9 ];
        leg( n, c );
        vf_eq( ffmath::assoc_legendre( n, 0U, x ), poly( c, n, x ), "of order zero it is the Legendre polynomial" );
        vf_eq( ffmath::assoc_legendre( n, n + 1U, x ), 0.0F, "it vanishes for an order above the degree" );
        vf_eq( ffmath::assoc_legendre( n, n + 7U, x ), 0.0F, "it vanishes for an order above the degree" );
    }
}
/* ---------------------------------------------------------------- polygons */
/* side of the directed edge: positive to the left */
static float side( const float x, const float y, const float ax, const float ay, const float bx, const float by )
{
    return ( ( bx - ax )*( y - ay ) ) - ( ( by - ay )*( x - ax ) );
}
/* convex polygon given counter-clockwise */
static void convex( const float *px, const float *py, const size_t n, const float x, const float y )
{
    bool in = true, out = false;
    for ( size_t i = 0U ; i < n ; ++i ) {
        const size_t j = ( i + 1U ) % n;
        const float s = side( x, y, px[ i ], py[ i ], px[ j ], py[ j ] );
        in = in && ( s > 0.0F );
        out = out || ( s < 0.0F );
    }
    const bool r = ffmath::inPolygon( x, y, px, py, n );
    vf_check( !in || r, "a point strictly inside the polygon is inside" );
    vf_check( !out || !r, "a point strictly outside the polygon is not inside" );
    float qx[ 8 ], qy[ 8 ];
    for ( size_t i = 0U ; i < n ; ++i ) {
        qx[ i ] = px[ n - 1U - i ];
        qy[ i ] = py[ n - 1U - i ];
    }
    const bool q = ffmath::inPolygon( x, y, qx, qy, n );
    vf_check( !in || q, "the direction of the vertices does not matter (inside)" );
    vf_check( !out || !q, "the direction of the vertices does not matter (outside)" );
}
ENTRY H_ffm_poly_tri()
{
    const float x = vf_real( "x" ), y = vf_real( "y" );
    const float ax[] = { 0.0F, 4.0F, 1.0F }, ay[] = { 0.0F, 1.0F, 3.0F };
    convex( ax, ay, 3U, x, y );
    const float bx[] = { -3.5F, -1.0F, -3.5F }, by[] = { -2.0F, -2.0F, 5.0F };
    convex( bx, by, 3U, x, y );
    const float cx[] = { 10.0F, 12.0F, 10.0F }, cy[] = { 20.0F, 25.0F, 25.0F };
    convex( cx, cy, 3U, x, y );
}
ENTRY H_ffm_poly_quad()
{
    const float x = vf_real( "x" ), y = vf_real( "y" );
    const float ax[] = { -2.0F, 3.0F, 3.0F, -2.0F }, ay[] = { -1.0F, -1.0F, 2.0F, 2.0F };
    convex( ax, ay, 4U, x, y );
    const float bx[] = { 0.0F, 2.0F, 0.0F, -2.0F }, by[] = { -2.0F, 0.0F, 2.0F, 0.0F };
    convex( bx, by, 4U, x, y );
    const float cx[] = { 5.0F, 8.0F, 7.0F, 4.0F }, cy[] = { 1.0F, 2.0F, 6.0F, 3.0F };
    convex( cx, cy, 4U, x, y );
}
ENTRY H_ffm_poly_penta()
{
    const float x = vf_real( "x" ), y = vf_real( "y" );
    const float ax[] = { 0.0F, 4.0F, 5.0F, 2.0F, -1.0F }, ay[] = { 0.0F, 0.0F, 3.0F, 5.0F, 3.0F };
    convex( ax, ay, 5U, x, y );
}
ENTRY H_ffm_poly_ell()
{
    const float x = vf_real( "x" ), y = vf_real( "y" );
    const float px[] = { 0.0F, 4.0F, 4.0F, 2.0F, 2.0F, 0.0F }, py[] = { 0.0F, 0.0F, 2.0F, 2.0F, 5.0F, 5.0F };
    const bool r = ffmath::inPolygon( x, y, px, py, 6U );
    const bool in = ( ( x > 0.0F ) && ( y > 0.0F ) ) && ( ( ( x < 4.0F ) && ( y < 2.0F ) ) || ( ( x < 2.0F ) && ( y < 5.0F ) ) );
    const bool cl = ( ( x >= 0.0F ) && ( y >= 0.0F ) ) && ( ( ( x <= 4.0F ) && ( y <= 2.0F ) ) || ( ( x <= 2.0F ) && ( y <= 5.0F ) ) );
    vf_check( !in || r, "a point strictly inside a concave polygon is inside" );
    vf_check( cl || !r, "a point strictly outside a concave polygon is not inside" );
}
ENTRY H_ffm_poly_notch()
{
    const float x = vf_real( "x" ), y = vf_real( "y" );
    /* square with a triangular notch from the top, the notch tip at (2,1) */
    const float px[] = { 0.0F, 4.0F, 4.0F, 2.0F, 0.0F }, py[] = { 0.0F, 0.0F, 4.0F, 1.0F, 4.0F };
    const bool r = ffmath::inPolygon( x, y, px, py, 5U );
    const float s1 = side( x, y, 4.0F, 4.0F, 2.0F, 1.0F ), s2 = side( x, y, 2.0F, 1.0F, 0.0F, 4.0F );
    const bool box = ( x > 0.0F ) && ( x < 4.0F ) && ( y > 0.0F ) && ( y < 4.0F );
    const bool clo = ( x >= 0.0F ) && ( x <= 4.0F ) && ( y >= 0.0F ) && ( y <= 4.0F );
    vf_check( !( box && ( ( s1 > 0.0F ) || ( s2 > 0.0F ) ) ) || r, "a point strictly inside a notched polygon is inside" );
    vf_check( ( clo && !( ( s1 < 0.0F ) && ( s2 < 0.0F ) ) ) || !r, "a point strictly outside a notched polygon is not inside" );
}
/* many vertices: a regular-looking convex outline and a comb */
ENTRY H_ffm_poly_many()
{
    const float x = vf_real( "x" );
    /* 12 vertices on both halves of a lens: lower chain y = x*x/8, upper chain y = 8 - x*x/8 with x from -5 to 5 */
    const float lx[] = { -5.0F, -3.0F, -1.0F, 1.0F, 3.0F, 5.0F, 5.0F, 3.0F, 1.0F, -1.0F, -3.0F, -5.0F };
    float ly[ 12 ];
    for ( size_t i = 0U ; i < 12U ; ++i ) ly[ i ] = ( i < 6U ) ? ( lx[ i ]*lx[ i ]*0.125F ) : ( 8.0F - ( lx[ i ]*lx[ i ]*0.125F ) );
    static const float ys[] = { -1.0F, 0.0625F, 0.5F, 2.0F, 4.0F, 6.5F, 7.5F, 8.5F };
    for ( size_t k = 0U ; k < 8U ; ++k ) {
        const float y = ys[ k ];
        bool in = true, out = false;
        for ( size_t i = 0U ; i < 12U ; ++i ) {
            const size_t j = ( i + 1U ) % 12U;
            const float s = side( x, y, lx[ i ], ly[ i ], lx[ j ], ly[ j ] );
            in = in && ( s > 0.0F );
            out = out || ( s < 0.0F );
        }
        const bool r = ffmath::inPolygon( x, y, lx, ly, 12U );
        vf_check( !in || r, "a point strictly inside a polygon of twelve vertices is inside" );
        vf_check( !out || !r, "a point strictly outside a polygon of twelve vertices is not inside" );
    }
}
ENTRY H_ffm_poly_comb()
{
    /* base [0,2n]x[0,1] with n teeth [2k,2k+1]x[1,3] */
    for ( size_t n = 2U ; n <= 80U ; n += 13U ) {
        float px[ 330 ], py[ 330 ];
        size_t v = 0U;
        px[ v ] = 0.0F; py[ v++ ] = 0.0F;
        px[ v ] = static_cast<float>( 2U*n - 1U ); py[ v++ ] = 0.0F;
        for ( size_t k = n ; k > 0U ; --k ) {
            const float l = static_cast<float>( 2U*( k - 1U ) ), h = l + 1.0F;
            px[ v ] = h; py[ v++ ] = 3.0F;
            px[ v ] = l; py[ v++ ] = 3.0F;
            if ( k > 1U ) {
                px[ v ] = l; py[ v++ ] = 1.0F;
                px[ v ] = l - 1.0F; py[ v++ ] = 1.0F;
            }
        }
        for ( size_t k = 0U ; k < n ; k += ( n > 20U ) ? 7U : 1U ) {
            const float c = static_cast<float>( 2U*k ) + 0.5F;
            vf_check( ffmath::inPolygon( c, 2.0F, px, py, v ), "a point in a tooth of the comb" );
            vf_check( ffmath::inPolygon( c, 0.5F, px, py, v ), "a point in the base of the comb" );
            vf_check( !ffmath::inPolygon( c, 3.5F, px, py, v ) && !ffmath::inPolygon( c, -0.5F, px, py, v ), "a point above and a point below the comb" );
            if ( k + 1U < n ) {
                vf_check( !ffmath::inPolygon( c + 1.0F, 2.0F, px, py, v ), "a point between two teeth of the comb" );
                vf_check( ffmath::inPolygon( c + 1.0F, 0.5F, px, py, v ), "a point below a gap of the comb" );
            }
        }
        vf_check( ffmath::inPolygon( static_cast<float>( 2U*n - 2U ) + 0.5F, 2.0F, px, py, v ), "a point in the last tooth of the comb" );
        vf_check( !ffmath::inPolygon( static_cast<float>( 2U*n ), 0.5F, px, py, v ), "a point beside the comb" );
    }
}
/* high degrees at fixed arguments, against the defining recurrences */
ENTRY H_ffm_degrees()
{
    static const float at[] = { 0.5F, -0.25F, 0.0F, 0.875F };
    for ( size_t q = 0U ; q < 4U ; ++q ) {
        const float x = at[ q ], z = ( x < 0.0F ) ? -x : x;
        float h0 = 1.0F, h1 = 2.0F*x, p0 = 1.0F, p1 = x, l0 = 1.0F, l1 = 1.0F - z, a0 = 1.0F, a1 = 4.0F - z;
        for ( size_t n = 1U ; n <= 40U ; ++n ) {
            vf_eq( ffmath::hermite( n, x ), h1, "Hermite polynomial of high degree" );
            vf_eq( ffmath::legendre( n, x ), p1, "Legendre polynomial of high degree" );
            vf_eq( ffmath::assoc_legendre( n, 0U, x ), p1, "Legendre polynomial of high degree" );
            vf_eq( ffmath::laguerre( n, z ), l1, "Laguerre polynomial of high degree" );
            vf_eq( ffmath::assoc_laguerre( n, 3U, z ), a1, "associated Laguerre polynomial of high degree" );
            const float k = static_cast<float>( n ), m = k + 1.0F;
            const float h = 2.0F*x*h1 - 2.0F*k*h0, p = ( ( 2.0F*k + 1.0F )*x*p1 - k*p0 )/m;
            const float l = ( ( 2.0F*k + 1.0F - z )*l1 - k*l0 )/m, a = ( ( 2.0F*k + 4.0F - z )*a1 - ( k + 3.0F )*a0 )/m;
            h0 = h1; h1 = h; p0 = p1; p1 = p; l0 = l1; l1 = l; a0 = a1; a1 = a;
        }
    }
    vf_eq( ffmath::legendre( 33U, 1.0F ), 1.0F, "Legendre polynomials are one at one" );
    vf_eq( ffmath::legendre( 33U, -1.0F ), -1.0F, "odd Legendre polynomials are minus one at minus one" );
    vf_eq( ffmath::legendre( 34U, -1.0F ), 1.0F, "even Legendre polynomials are one at minus one" );
}
