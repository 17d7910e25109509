#include "vf.hpp"
#include <include/fp16.hpp>
using namespace qlibs;

static fp16 mk( const int32_t raw )
{
    static_assert( sizeof( fp16 ) == sizeof( int32_t ), "a Q16.16 value is its 32 bit representation" );
    fp16 r;
    *reinterpret_cast<int32_t*>( &r ) = raw;
    return r;
}
static const int32_t OV = -2147483647 - 1;
static int32_t clip( const int64_t v ) { return ( ( v > 2147483647LL ) || ( v < -2147483648LL ) ) ? OV : static_cast<int32_t>( v ); }
static void eqr( const fp16 &a, const int32_t b, const char *what ) { vf_eq_int( static_cast<uint32_t>( a.raw() ), static_cast<uint32_t>( b ), what ); }

static void two( int32_t &x, int32_t &y )
{
    uint32_t a, b;
    vf_pair32( "xy", &a, &b );
    x = static_cast<int32_t>( a );
    y = static_cast<int32_t>( b );
}
/* ---------------------------------------------------------------- sums */
ENTRY H_fx_add()
{
    int32_t x, y;
    two( x, y );
    fp16 a = mk( x ), b = mk( y );
    const int32_t want = clip( static_cast<int64_t>( x ) + y );
    eqr( a + b, want, "a sum is exact or the overflow marker" );
    eqr( a, x, "the operands are not changed" );
    eqr( b, y, "the operands are not changed" );
    a += b;
    eqr( a, want, "compound addition agrees with addition" );
}
ENTRY H_fx_sub()
{
    int32_t x, y;
    two( x, y );
    fp16 a = mk( x ), b = mk( y );
    const int32_t want = clip( static_cast<int64_t>( x ) - y );
    eqr( a - b, want, "a difference is exact or the overflow marker" );
    eqr( a, x, "the operands are not changed" );
    a -= b;
    eqr( a, want, "compound subtraction agrees with subtraction" );
}
ENTRY H_fx_unary()
{
    const int32_t x = static_cast<int32_t>( vf_u32( "x" ) );
    fp16 a = mk( x );
    eqr( -a, clip( -static_cast<int64_t>( x ) ), "negation is exact or the overflow marker" );
    fp16 i = mk( x );
    eqr( ++i, clip( static_cast<int64_t>( x ) + 65536 ), "prefix increment adds one" );
    eqr( i, clip( static_cast<int64_t>( x ) + 65536 ), "prefix increment updates" );
    fp16 j = mk( x );
    eqr( j++, x, "postfix increment returns the old value" );
    eqr( j, clip( static_cast<int64_t>( x ) + 65536 ), "postfix increment adds one" );
    fp16 k = mk( x );
    eqr( --k, clip( static_cast<int64_t>( x ) - 65536 ), "prefix decrement subtracts one" );
    eqr( k, clip( static_cast<int64_t>( x ) - 65536 ), "prefix decrement updates" );
    fp16 l = mk( x );
    eqr( l--, x, "postfix decrement returns the old value" );
    eqr( l, clip( static_cast<int64_t>( x ) - 65536 ), "postfix decrement subtracts one" );
    vf_eq_int( a.isOverflow(), x == OV, "isOverflow recognises exactly the marker" );
    fp16 c( a ), d;
    eqr( c, x, "copies are exact" );
    eqr( d, 0, "the default value is zero" );
    d = a;
    eqr( d, x, "assignment is exact" );
}
ENTRY H_fx_order()
{
    int32_t x, y;
    two( x, y );
    const fp16 a = mk( x ), b = mk( y );
    vf_eq_int( a < b, x < y, "less" );
    vf_eq_int( a <= b, x <= y, "less or equal" );
    vf_eq_int( a > b, x > y, "greater" );
    vf_eq_int( a >= b, x >= y, "greater or equal" );
    vf_eq_int( a == b, x == y, "equal" );
    vf_eq_int( a != b, x != y, "different" );
}
/* ------------------------------------------------------- integral parts */
ENTRY H_fx_parts()
{
    const int32_t x = static_cast<int32_t>( vf_u32( "x" ) );
    vf_assume( x != OV );
    const fp16 a = mk( x );
    const int64_t v = x;
    const int64_t fl = ( v >> 16 )*65536;
    eqr( fp16::floor( a ), clip( fl ), "floor is the largest integer not above the value" );
    eqr( fp16::ceil( a ), clip( ( fl == v ) ? fl : ( fl + 65536 ) ), "ceil is the smallest integer not below the value" );
    eqr( fp16::absolute( a ), clip( ( v < 0 ) ? -v : v ), "the absolute value" );
    if ( ( x & 0xFFFF ) != 0x8000 ) {
        eqr( fp16::rounding( a ), clip( ( ( v + 32768 ) >> 16 )*65536 ), "rounding gives the nearest integer" );
    }
}
ENTRY H_fx_parts_marker()
{
    const fp16 a = mk( OV );
    eqr( fp16::absolute( a ), OV, "the magnitude of the overflow marker is the marker" );
    eqr( fp16::floor( a ), OV, "floor of the overflow marker is the marker" );
    eqr( fp16::ceil( a ), OV, "ceil of the overflow marker is the marker" );
}
ENTRY H_fx_int()
{
    const int32_t i = static_cast<int32_t>( vf_u32( "i" ) );
    vf_assume( ( i >= -32767 ) && ( i <= 32767 ) );
    const fp16 a = fp16::from( static_cast<int>( i ) );
    vf_eq_int( static_cast<uint32_t>( a.raw() ), static_cast<uint32_t>( i*65536 ), "from an integer is exact" );
    vf_eq_int( static_cast<uint32_t>( fp16::toInt( a ) ), static_cast<uint32_t>( i ), "integers survive the round trip" );
    fp16 b;
    b = static_cast<int>( i );
    vf_check( b == a, "assignment from an integer agrees" );
}
ENTRY H_fx_toint()
{
    const int32_t x = static_cast<int32_t>( vf_u32( "x" ) );
    vf_assume( ( x > OV + 32768 ) && ( x < 2147483647 - 32768 ) );
    const int64_t v = ( x < 0 ) ? -static_cast<int64_t>( x ) : x;
    const int64_t r = ( v + 32768 ) >> 16;
    vf_eq_int( static_cast<uint32_t>( fp16::toInt( mk( x ) ) ), static_cast<uint32_t>( ( x < 0 ) ? -r : r ), "toInt rounds to the nearest integer, halves away from zero" );
}
ENTRY H_fx_tofloat()
{
    const int32_t x = static_cast<int32_t>( vf_u32( "x" ) );
    vf_eq( fp16::toFloat( mk( x ) ), static_cast<float>( x )/65536.0F, "toFloat is the raw value over 65536" );
    vf_check( fp16::toDouble( mk( x ) ) == static_cast<double>( x )/65536.0, "toDouble is the raw value over 65536" );
}
/* ----------------------------------------------- products and quotients */
static int32_t product( const int32_t x, const int32_t y )
{
    const int64_t p = static_cast<int64_t>( x )*y;
    const int64_t r = ( p + 32768 - ( ( p < 0 ) ? 1 : 0 ) ) >> 16;      /* to nearest, halves away from zero */
    return ( ( r > 2147483647LL ) || ( r < -2147483647LL ) ) ? OV : static_cast<int32_t>( r );
}
static void mulcase( const int32_t x, const int32_t y )
{
    fp16 a = mk( x ), b = mk( y );
    const int32_t want = product( x, y );
    eqr( a*b, want, "a product is the nearest value or the overflow marker" );
    a *= b;
    eqr( a, want, "compound multiplication agrees with multiplication" );
}
/* one operand arbitrary in an 8 bit window, the other one as well */
static void mulwin( const unsigned s, const int32_t base, const unsigned t, const int32_t base2 )
{
    const uint32_t u = vf_u8( "u" ) & 0x1FU, v = vf_u8( "v" ) & 0x1FU;
    mulcase( static_cast<int32_t>( static_cast<uint32_t>( base ) + ( u << s ) ), static_cast<int32_t>( static_cast<uint32_t>( base2 ) + ( v << t ) ) );
}
ENTRY H_fx_mul_lowlow() { mulwin( 0U, 0, 0U, 0 ); mulwin( 8U, 0x13, 8U, 0x7F ); mulwin( 8U, 0xFFFF00FF, 8U, 3 ); }
ENTRY H_fx_mul_midmid() { mulwin( 12U, 0x8000, 12U, 0x8000 ); mulwin( 14U, -0x200000, 12U, 0x1 ); }
ENTRY H_fx_mul_hilow() { mulwin( 16U, 0, 8U, 0 ); mulwin( 20U, 0xFFFF, 4U, 0x7 ); mulwin( 16U, -0x800000, 8U, -0x8000 ); }
ENTRY H_fx_mul_hihi() { mulwin( 16U, 0x8000, 16U, 0x7FFF ); mulwin( 23U, 0x12345, 16U, 0xFFFF ); mulwin( 24U, 0, 16U, -0x400000 ); }
ENTRY H_fx_mul_ext()
{
    static const int32_t c[] = { 0, 1, -1, 65536, -65536, 32768, -32768, 131072, 2147483647, -2147483647, 65535, 0x10001 };
    for ( unsigned i = 0U ; i < sizeof( c )/sizeof( c[ 0 ] ) ; ++i ) {
        for ( unsigned s = 0U ; s <= 24U ; s += 8U ) {
            const uint32_t u = vf_u8( "u" ) & 0x7FU;
            mulcase( static_cast<int32_t>( u << s ), c[ i ] );
            mulcase( c[ i ], static_cast<int32_t>( 0x00FF00FFU ^ ( u << s ) ) );
        }
    }
}
static int32_t anyraw() { const int32_t x = static_cast<int32_t>( vf_u32( "x" ) ); vf_assume( x != OV ); return x; }
ENTRY H_fx_mul_one() { const int32_t x = anyraw(); eqr( mk( x )*mk( 65536 ), x, "one is neutral" ); }
ENTRY H_fx_mul_one_l() { const int32_t x = anyraw(); eqr( mk( 65536 )*mk( x ), x, "one is neutral" ); }
ENTRY H_fx_mul_zero() { const int32_t x = anyraw(); eqr( mk( x )*mk( 0 ), 0, "zero absorbs" ); eqr( mk( 0 )*mk( x ), 0, "zero absorbs" ); }
static void divone( const uint32_t r ) { const int32_t x = static_cast<int32_t>( r ); vf_assume( x != OV ); eqr( mk( x )/mk( 65536 ), x, "division by one" ); }
ENTRY H_fx_div_one() { divone( vf_u16( "x" ) ); divone( static_cast<uint32_t>( vf_u16( "y" ) ) << 16 ); divone( 0x5A000000U + ( static_cast<uint32_t>( vf_u16( "z" ) ) << 8 ) ); }
ENTRY H_fx_mul_two()
{
    const int32_t x = anyraw();
    const int64_t d = 2*static_cast<int64_t>( x );
    eqr( mk( x )*mk( 131072 ), ( ( d > 2147483647LL ) || ( d < -2147483647LL ) ) ? OV : static_cast<int32_t>( d ), "twice" );
}
ENTRY H_fx_mul_half()
{
    const int32_t x = anyraw();
    eqr( mk( 32768 )*mk( x ), ( x < 0 ) ? -static_cast<int32_t>( ( 1 - static_cast<int64_t>( x ) ) >> 1 ) : static_cast<int32_t>( ( 1 + static_cast<int64_t>( x ) ) >> 1 ), "half" );
}
static int32_t quotient( const int32_t x, const int32_t y )
{
    if ( y == 0 ) return -2147483647;
    const uint64_t n = static_cast<uint64_t>( ( x < 0 ) ? -static_cast<int64_t>( x ) : x ) << 17;
    const uint64_t d = static_cast<uint64_t>( ( y < 0 ) ? -static_cast<int64_t>( y ) : y );
    /* to nearest, halves away from zero; restoring division keeps the guards small */
    uint64_t r = 0U, q = 0U;
    for ( int k = 48 ; k >= 0 ; --k ) {
        r = ( r << 1 ) | ( ( n >> k ) & 1U );
        q <<= 1;
        if ( r >= d ) { r -= d; q |= 1U; }
    }
    q = ( q + 1U ) >> 1;
    if ( q > 0x7FFFFFFFULL ) return OV;
    return ( ( x < 0 ) != ( y < 0 ) ) ? -static_cast<int32_t>( q ) : static_cast<int32_t>( q );
}
static void divcase( const int32_t x, const int32_t y )
{
    fp16 a = mk( x ), b = mk( y );
    const int32_t want = quotient( x, y );
    eqr( a/b, want, "a quotient is the nearest value or the overflow marker" );
    a /= b;
    eqr( a, want, "compound division agrees with division" );
}
static void divwin( const unsigned s, const int32_t base, const unsigned t, const int32_t base2 )
{
    const uint32_t u = vf_u8( "u" ) & 0x3FU, v = vf_u8( "v" ) & 0x3FU;
    divcase( static_cast<int32_t>( static_cast<uint32_t>( base ) + ( u << s ) ), static_cast<int32_t>( static_cast<uint32_t>( base2 ) + ( v << t ) ) );
}
ENTRY H_fx_div_a() { divwin( 16U, 0, 16U, 0 ); divwin( 0U, 1, 0U, 1 ); }
ENTRY H_fx_div_b() { divwin( 16U, -0x200000, 12U, 0x8000 ); }
ENTRY H_fx_div_c() { divwin( 25U, 0xFF, 10U, 0x7FFF ); divwin( 24U, 0x7FFF, 2U, -0x40 ); }
ENTRY H_fx_div_d() { divwin( 20U, -0x2000000, 18U, -0x800000 ); }
ENTRY H_fx_div_zero()
{
    const int32_t x = static_cast<int32_t>( vf_u32( "x" ) );
    vf_assume( x != OV );
    fp16 a = mk( x ), z = mk( 0 );
    eqr( a/z, -2147483647, "division by zero gives the lowest value" );
}
ENTRY H_fx_div_ext()
{
    static const int32_t c[] = { 1, -1, 65536, -65536, 32768, 131072, 2147483647, -2147483647, 65535, 3 };
    for ( unsigned i = 0U ; i < sizeof( c )/sizeof( c[ 0 ] ) ; ++i ) {
        for ( unsigned s = 0U ; s <= 24U ; s += 8U ) {
            const uint32_t u = vf_u8( "u" ) & 0x7FU;
            divcase( static_cast<int32_t>( u << s ), c[ i ] );
            divcase( c[ i ], static_cast<int32_t>( u << s ) );
        }
    }
}
/* ------------------------------------------------------------- square root */
static void rootcase( const int32_t x )
{
    const uint64_t n = static_cast<uint64_t>( static_cast<uint32_t>( x ) ) << 16;
    uint64_t r = 0U, rem = 0U;           /* digit recurrence */
    for ( int k = 23 ; k >= 0 ; --k ) {
        rem = ( rem << 2 ) | ( ( n >> ( 2*k ) ) & 3U );
        const uint64_t t = ( r << 2 ) | 1U;
        r <<= 1;
        if ( rem >= t ) { rem -= t; r |= 1U; }
    }
    if ( rem > r ) ++r;      /* nearest */
    const int32_t got = fp16::sqrt( mk( x ) ).raw(), want = static_cast<int32_t>( r );
    if ( x < 0x40000000 ) {
        vf_eq_int( static_cast<uint32_t>( got ), static_cast<uint32_t>( want ), "the square root is the nearest value" );
    }
    else {
        vf_check( ( got == want ) || ( got - want == 1 ) || ( want - got == 1 ), "the square root is accurate to the last place" );
    }
}
ENTRY H_fx_sqrt_a() { rootcase( static_cast<int32_t>( static_cast<uint32_t>( vf_u8( "u" ) ) ) ); }
ENTRY H_fx_sqrt_b() { rootcase( static_cast<int32_t>( static_cast<uint32_t>( vf_u8( "u" ) ) << 12 ) ); }
ENTRY H_fx_sqrt_c() { rootcase( static_cast<int32_t>( ( static_cast<uint32_t>( vf_u8( "u" ) ) << 20 ) | 0x5A5A5U ) ); }
ENTRY H_fx_sqrt_d() { rootcase( static_cast<int32_t>( ( static_cast<uint32_t>( vf_u8( "u" ) & 0x7FU ) << 24 ) | 0xFFFFFFU ) ); }
/* squares, their neighbours, and remainders that fill the 16 bits of the second half exactly */
static void rootpoint( const uint32_t x )
{
    if ( x <= 0x7FFFFFFFU ) rootcase( static_cast<int32_t>( x ) );
}
ENTRY H_fx_sqrt_edges()
{
    static const uint32_t rs[] = { 1U, 2U, 3U, 7U, 15U, 255U, 256U, 257U, 4095U, 4096U, 16384U, 32767U, 32768U, 32769U, 33000U, 40000U, 44444U, 46339U, 46340U };
    for ( size_t k = 0U ; k < sizeof( rs )/sizeof( rs[ 0 ] ) ; ++k ) {
        const uint32_t r = rs[ k ], q = r*r;
        rootpoint( q - 1U ); rootpoint( q ); rootpoint( q + 1U ); rootpoint( q + r - 1U ); rootpoint( q + r ); rootpoint( q + r + 1U ); rootpoint( q + 2U*r );
        if ( r >= 32768U ) { rootpoint( q + 65535U ); rootpoint( q + 65536U ); rootpoint( q + 65537U ); }
    }
    rootpoint( 0x7FFFFFFFU ); rootpoint( 0x7FFFFFFEU );
}
ENTRY H_fx_sqrt_domain()
{
    const int32_t x = static_cast<int32_t>( vf_u32( "x" ) );
    vf_assume( x < 0 );
    vf_check( fp16::sqrt( mk( x ) ).isOverflow(), "the square root of a negative value is the overflow marker" );
    eqr( fp16::sqrt( mk( 0 ) ), 0, "the square root of zero is zero" );
}
/* ------------------------------------------------ special values, domains */
ENTRY H_fx_special()
{
    eqr( fp16::exp( mk( 0 ) ), 65536, "exp(0) = 1" );
    eqr( fp16::exp( mk( 65536 ) ), 178145, "exp(1) = e" );
    eqr( fp16::cosh( mk( 0 ) ), 65536, "cosh(0) = 1" );
    eqr( fp16::sinh( mk( 0 ) ), 0, "sinh(0) = 0" );
    eqr( fp16::tanh( mk( 0 ) ), 0, "tanh(0) = 0" );
    eqr( fp16::sin( mk( 0 ) ), 0, "sin(0) = 0" );
    eqr( fp16::asin( mk( 65536 ) ), 102944, "asin(1) = pi/2" );
    eqr( fp16::asin( mk( -65536 ) ), -102944, "asin(-1) = -pi/2" );
    eqr( fp16::acos( mk( 65536 ) ), 0, "acos(1) = 0" );
}
ENTRY H_fx_lim_log() { const int32_t x = static_cast<int32_t>( vf_u32( "x" ) ); vf_assume( x <= 0 ); vf_check( fp16::log( mk( x ) ).isOverflow(), "log of a non positive value is the overflow marker" ); }
ENTRY H_fx_lim_log2() { const int32_t x = static_cast<int32_t>( vf_u32( "x" ) ); vf_assume( x <= 0 ); vf_check( fp16::log2( mk( x ) ).isOverflow(), "log2 of a non positive value is the overflow marker" ); }
#define LIM( name, cond, f, want, text ) ENTRY H_fx_lim_##name() { const int32_t x = static_cast<int32_t>( vf_u32( "x" ) ); vf_assume( cond ); eqr( fp16::f( mk( x ) ), want, text ); }
LIM( exp, x >= 681391, exp, 2147483647, "exp saturates above its range" )
LIM( cosh, x >= 681391, cosh, 2147483647, "cosh saturates above its range" )
LIM( sinh, x >= 681391, sinh, 2147483647, "sinh saturates above its range" )
LIM( tanh, x >= 681391, tanh, 65536, "tanh is one far from zero" )
LIM( expn, x <= -681391, exp, 0, "exp vanishes below its range" )
LIM( coshn, x <= -681391, cosh, 2147483647, "cosh saturates below its range" )
LIM( sinhn, x <= -681391, sinh, -2147483647, "sinh saturates below its range" )
LIM( tanhn, x <= -681391, tanh, -65536, "tanh is minus one far from zero" )
ENTRY H_fx_lim_edges()
{
    static const int32_t at[] = { 681391, 681392, 681400, 700000, 1000000, 2000000, 0x10000000, 2147483647 };
    for ( const int32_t x : at ) {
        eqr( fp16::exp( mk( x ) ), 2147483647, "exp saturates from its limit on" );
        eqr( fp16::exp( mk( -x ) ), 0, "exp vanishes from its lower limit on" );
        eqr( fp16::cosh( mk( x ) ), 2147483647, "cosh saturates from its limit on" );
        eqr( fp16::cosh( mk( -x ) ), 2147483647, "cosh saturates from its lower limit on" );
        eqr( fp16::sinh( mk( x ) ), 2147483647, "sinh saturates from its limit on" );
        eqr( fp16::sinh( mk( -x ) ), -2147483647, "sinh saturates from its lower limit on" );
        eqr( fp16::tanh( mk( x ) ), 65536, "tanh is one from the limit of exp on" );
        eqr( fp16::tanh( mk( -x ) ), -65536, "tanh is minus one from the limit of exp on" );
    }
}
ENTRY H_fx_lim_expmax()
{
    const int32_t x = static_cast<int32_t>( vf_u32( "x" ) );
    vf_eq_int( mk( x ).isExpMax(), ( x == 681391 ) || ( x == -681391 ), "isExpMax recognises the limits of exp" );
}
ENTRY H_fx_consts()
{
    eqr( FP_E, 178145, "e" );           eqr( FP_LOG2E, 94548, "log2(e)" );   eqr( FP_LOG10E, 28462, "log10(e)" );
    eqr( FP_LN2, 45426, "ln 2" );       eqr( FP_LN10, 150902, "ln 10" );     eqr( FP_PI, 205887, "pi" );
    eqr( FP_PI_2, 102944, "pi/2" );     eqr( FP_PI_4, 51472, "pi/4" );       eqr( FP_1_PI, 20861, "1/pi" );
    eqr( FP_2_PI, 41722, "2/pi" );      eqr( FP_2_SQRTPI, 73949, "2/sqrt(pi)" );
    eqr( FP_SQRT2, 92682, "sqrt(2)" );  eqr( FP_SQRT1_2, 46341, "1/sqrt(2)" );
    eqr( 1.5_fp, 98304, "literal" );    eqr( -0.25_fp, -16384, "literal" );  eqr( 7_fp, 458752, "literal" );
}
/* ------------------------------------------------------------- wrapping */
ENTRY H_fx_wrap180()
{
    const int32_t x = static_cast<int32_t>( vf_u32( "x" ) );
    const int32_t r = fp16::wrapTo180( mk( x ) ).raw();
    vf_check( ( r >= -11796480 ) && ( r <= 11796480 ), "the wrapped angle lies in [-180,180]" );
    int32_t want = x;                    /* remove whole turns: restoring division by 360 */
    for ( int k = 6 ; k >= 0 ; --k ) {
        const int64_t step = static_cast<int64_t>( 23592960 ) << k;
        if ( static_cast<int64_t>( want ) - step > -11796480 ) want = static_cast<int32_t>( want - step );
        if ( static_cast<int64_t>( want ) + step <= 11796480 ) want = static_cast<int32_t>( want + step );
    }
    vf_check( ( r == want ) || ( r - want == 23592960 ) || ( want - r == 23592960 ), "wrapping changes the angle by whole turns" );
}
ENTRY H_fx_wrappi()
{
    const int32_t x = static_cast<int32_t>( vf_u32( "x" ) );
    vf_assume( ( x >= -2000000 ) && ( x <= 2000000 ) );
    const int32_t r = fp16::wrapToPi( mk( x ) ).raw();
    vf_check( ( r >= -205888 ) && ( r <= 205888 ), "the wrapped angle lies in [-pi,pi] within the resolution" );
    const int32_t d = x - r;
    bool turns = false;
    for ( int k = -6 ; k <= 6 ; ++k ) if ( d == 411775*k ) turns = true;
    vf_check( turns, "wrapping changes the angle by whole turns" );
}
ENTRY H_fx_wrappi_far()
{
    static const int32_t at[] = { 2147483647, 2147483646, -2147483647, -2147483647 - 1, 1073741824, -1073741825, 268435456, -268435399, 20000003, -20000003, 5000001, -4999999 };
    for ( const int32_t x : at ) {
        const int32_t r = fp16::wrapToPi( mk( x ) ).raw();
        vf_check( ( r >= -205888 ) && ( r <= 205888 ), "a far angle is wrapped into [-pi,pi]" );
        vf_check( ( static_cast<int64_t>( x ) - r ) % 411775 == 0, "a far angle is wrapped by whole turns" );
        const int32_t s = fp16::sin( mk( x ) ).raw() - fp16::sin( mk( r ) ).raw();
        const int32_t c = fp16::cos( mk( x ) ).raw() - fp16::cos( mk( r ) ).raw();
        vf_check( ( s >= -64 ) && ( s <= 64 ), "the sine of a far angle is that of the wrapped angle" );
        vf_check( ( c >= -64 ) && ( c <= 64 ), "the cosine of a far angle is that of the wrapped angle" );
    }
}
/* ------------------------------------------------------------------ text */
static void text( const int32_t raw, const int decimals )
{
    /* sign, at most five integer digits, point, decimals, terminator */
    const int dec = ( decimals < 0 ) ? 0 : ( ( decimals > 5 ) ? 5 : decimals );
    const int64_t mag = ( raw < 0 ) ? -static_cast<int64_t>( raw ) : raw;
    static const int64_t sc[] = { 1, 10, 100, 1000, 10000, 100000 };
    const int64_t frac = ( ( mag & 0xFFFF )*sc[ dec ] + 32768 ) >> 16;
    int64_t all = ( mag >> 16 )*sc[ dec ] + frac;
    char ref[ 16 ];
    int n = 0, len;
    for ( int i = 0 ; i < dec ; ++i ) { ref[ n++ ] = static_cast<char>( '0' + all%10 ); all /= 10; }
    if ( dec > 0 ) ref[ n++ ] = '.';
    do { ref[ n++ ] = static_cast<char>( '0' + all%10 ); all /= 10; } while ( all > 0 );
    if ( raw < 0 ) ref[ n++ ] = '-';
    len = n;
    char *buf = static_cast<char*>( vf_buf( static_cast<size_t>( len ) + 1U, "text" ) );
    vf_check( fp16::toASCII( mk( raw ), buf, decimals ) == buf, "toASCII returns its buffer" );
    for ( int i = 0 ; i < len ; ++i ) vf_eq_int( static_cast<uint8_t>( buf[ i ] ), static_cast<uint8_t>( ref[ len - 1 - i ] ), "decimal digits" );
    vf_eq_int( static_cast<uint8_t>( buf[ len ] ), 0U, "the text is terminated" );
}
ENTRY H_fx_text_ranges()
{
    static const int32_t v[] = { 0, 1, -1, 65536, 98304, -98304, 655360, 6553600, 65536000, 655360000, 2147483647, -2147483647, 205887, 32768, 65535, 6553, -6553600 + 1 };
    for ( unsigned i = 0U ; i < sizeof( v )/sizeof( v[ 0 ] ) ; ++i ) {
        for ( int d = -1 ; d <= 6 ; ++d ) text( v[ i ], d );
    }
    char *o = static_cast<char*>( vf_buf( 9U, "text" ) );
    fp16::toASCII( mk( OV ), o, 3 );
    static const char w[] = "overflow";
    for ( unsigned i = 0U ; i < 9U ; ++i ) vf_eq_int( static_cast<uint8_t>( o[ i ] ), static_cast<uint8_t>( w[ i ] ), "the overflow marker prints as overflow" );
}
