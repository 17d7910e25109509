#include "vf.hpp"
#include <include/bitfield.hpp>
#include <include/crc.hpp>
#include <cstring>
using namespace qlibs;

/* ------------------------------------------------------------------ bit-field */
static void fill( uint32_t *w, size_t n ) { for ( size_t i = 0U ; i < n ; ++i ) w[ i ] = vf_u32( "w" ); }
static uint32_t bit( const uint32_t *w, size_t i ) { return ( w[ i/32U ] >> ( i%32U ) ) & 1U; }
static uint32_t span( const uint32_t *w, size_t n, size_t i, size_t k )
{
    uint32_t r = 0U;
    for ( size_t j = 0U ; ( j < k ) && ( ( i + j ) < 32U*n ) ; ++j ) r |= bit( w, i + j ) << j;
    return r;
}
static void put( uint32_t *w, size_t n, size_t i, size_t k, uint32_t v )
{
    for ( size_t j = 0U ; ( j < k ) && ( ( i + j ) < 32U*n ) ; ++j ) {
        const size_t p = i + j;
        w[ p/32U ] = ( w[ p/32U ] & ~( uint32_t( 1 ) << ( p%32U ) ) ) | ( ( ( v >> j ) & 1U ) << ( p%32U ) );
    }
}
static void same( const uint32_t *a, const uint32_t *b, size_t n, const char *what )
{
    for ( size_t i = 0U ; i < n ; ++i ) vf_eq_int( a[ i ], b[ i ], what );
}

static void bf_single( const size_t n )
{
    for ( size_t i = 0U ; i < 32U*n ; ++i ) {
        uint32_t *a = static_cast<uint32_t*>( vf_buf( 4U*n, "area" ) ), r[ 4 ];
        fill( a, n );
        memcpy( r, a, 4U*n );
        bitfield f;
        vf_check( f.setup( a, 4U*n ), "setup accepted" );
        same( a, r, n, "setup leaves the contents" );
        vf_eq_int( f.readBit( i ), bit( r, i ), "readBit returns the addressed bit" );
        vf_check( f.setBit( i ), "setBit accepted" );
        put( r, n, i, 1U, 1U );
        same( a, r, n, "setBit sets only the addressed bit" );
        vf_check( f.clearBit( i ), "clearBit accepted" );
        put( r, n, i, 1U, 0U );
        same( a, r, n, "clearBit clears only the addressed bit" );
        fill( a, n );
        memcpy( r, a, 4U*n );
        vf_check( f.toggleBit( i ), "toggleBit accepted" );
        put( r, n, i, 1U, 1U - bit( r, i ) );
        same( a, r, n, "toggleBit inverts only the addressed bit" );
        const bool v = ( vf_u8( "v" ) & 1U ) != 0U;
        vf_check( f.writeBit( i, v ), "writeBit accepted" );
        put( r, n, i, 1U, v ? 1U : 0U );
        same( a, r, n, "writeBit writes only the addressed bit" );
        vf_eq_int( f.readBit( i ), v ? 1U : 0U, "readBit after writeBit" );
    }
}
ENTRY H_bf_single_1() { bf_single( 1U ); }
ENTRY H_bf_single_3() { bf_single( 3U ); }

static void bf_span( const size_t n, const size_t k0, const size_t k1 )
{
    for ( size_t k = k0 ; k <= k1 ; ++k ) {
        for ( size_t i = 0U ; i < 32U*n ; ++i ) {
            uint32_t *a = static_cast<uint32_t*>( vf_buf( 4U*n, "area" ) ), r[ 4 ];
            fill( a, n );
            memcpy( r, a, 4U*n );
            bitfield f;
            f.setup( a, 4U*n );
            vf_eq_int( f.readUINTn( i, k ), span( r, n, i, k ), "an n-bit read returns exactly the addressed bits" );
            const uint32_t v = vf_u32( "v" );
            vf_check( f.writeUINTn( i, k, v ), "write accepted" );
            if ( k > 1U ) put( r, n, i, k, v );
            else put( r, n, i, k, v != 0U );
            same( a, r, n, "an n-bit write changes exactly the addressed bits" );
            vf_eq_int( f.readUINTn( i, k ), span( r, n, i, k ), "read back what was written" );
        }
    }
}
ENTRY H_bf_span_lo1() { bf_span( 1U, 1U, 32U ); }
ENTRY H_bf_span_2a() { bf_span( 2U, 1U, 8U ); }
ENTRY H_bf_span_2b() { bf_span( 2U, 9U, 16U ); }
ENTRY H_bf_span_2c() { bf_span( 2U, 17U, 24U ); }
ENTRY H_bf_span_2d() { bf_span( 2U, 25U, 32U ); }
ENTRY H_bf_span_3() { bf_span( 3U, 7U, 7U ); bf_span( 3U, 31U, 32U ); bf_span( 3U, 1U, 1U ); }

ENTRY H_bf_float()
{
    const size_t n = 3U;
    for ( size_t i = 0U ; i < 32U*n ; ++i ) {
        uint32_t *a = static_cast<uint32_t*>( vf_buf( 4U*n, "area" ) ), r[ 4 ];
        fill( a, n );
        memcpy( r, a, 4U*n );
        bitfield f;
        f.setup( a, 4U*n );
        const float v = vf_fbits( "v" );
        uint32_t u, g;
        memcpy( &u, &v, 4U );
        vf_check( f.writeFloat( i, v ), "writeFloat accepted" );
        put( r, n, i, 32U, u );
        same( a, r, n, "writeFloat stores the 32 bits of the value at the index" );
        const float x = f.readFloat( i );
        memcpy( &g, &x, 4U );
        vf_eq_int( g, span( r, n, i, 32U ), "readFloat returns the 32 bits at the index" );
    }
}
ENTRY H_bf_whole()
{
    for ( size_t n = 1U ; n <= 3U ; ++n ) {
        uint32_t *a = static_cast<uint32_t*>( vf_buf( 4U*n, "area" ) ), r[ 4 ];
        fill( a, n );
        bitfield f;
        f.setup( a, 4U*n );
        for ( size_t k = 0U ; k <= 4U*n ; ++k ) {
            uint8_t *d = static_cast<uint8_t*>( vf_buf( k + 1U, "dst" ) );
            const uint8_t guard = vf_u8( "guard" );
            d[ k ] = guard;
            vf_check( f.dump( d, k ) == d, "dump returns the destination" );
            uint8_t ref[ 16 ];
            memcpy( ref, a, 4U*n );
            for ( size_t j = 0U ; j < k ; ++j ) vf_eq_int( d[ j ], ref[ j ], "dump copies the leading bytes" );
            vf_eq_int( d[ k ], guard, "dump copies no more than asked" );
        }
        uint8_t *e = static_cast<uint8_t*>( vf_buf( 4U*n, "dst" ) );
        vf_check( f.dump( e, 4U*n + 1U ) == nullptr, "dump of more than the field is refused" );
        vf_check( f.dump( nullptr, 1U ) == nullptr, "dump to null is refused" );
        vf_check( f.setAll(), "setAll accepted" );
        for ( size_t j = 0U ; j < n ; ++j ) vf_eq_int( a[ j ], 0xFFFFFFFFU, "setAll sets every bit" );
        vf_check( f.clearAll(), "clearAll accepted" );
        for ( size_t j = 0U ; j < n ; ++j ) vf_eq_int( a[ j ], 0U, "clearAll clears every bit" );
        (void) r;
    }
}
/* fields longer than 256 bits, positions on both sides of every 8-bit wrap */
ENTRY H_bf_large()
{
    constexpr size_t n = 20U;
    uint32_t *a = static_cast<uint32_t*>( vf_buf( 4U*n, "area" ) ), r[ n ];
    fill( a, n );
    memcpy( r, a, 4U*n );
    bitfield f;
    vf_check( f.setup( a, 4U*n ), "setup accepted" );
    static const size_t at[] = { 0U, 255U, 256U, 257U, 287U, 300U, 320U, 511U, 512U, 513U, 600U, 639U };
    for ( size_t k = 0U ; k < 12U ; ++k ) {
        const size_t i = at[ k ];
        vf_eq_int( f.readBit( i ), bit( r, i ), "readBit of a long field" );
        vf_check( f.toggleBit( i ), "toggleBit accepted" );
        put( r, n, i, 1U, 1U - bit( r, i ) );
        same( a, r, n, "toggleBit of a long field" );
        vf_check( f.writeUINTn( i, 13U, 0x0AAAU ), "writeUINTn accepted" );
        put( r, n, i, 13U, 0x0AAAU );
        same( a, r, n, "writeUINTn of a long field" );
        vf_eq_int( f.readUINTn( i, 27U ), span( r, n, i, 27U ), "readUINTn of a long field" );
        vf_check( f.setBit( i ), "setBit accepted" );
        put( r, n, i, 1U, 1U );
        same( a, r, n, "setBit of a long field" );
        vf_check( f.clearBit( i ), "clearBit accepted" );
        put( r, n, i, 1U, 0U );
        same( a, r, n, "clearBit of a long field" );
    }
    vf_check( !f.setBit( 640U ), "one past a long field" );
    uint32_t d[ n + 1U ];
    d[ n ] = 0x12345678U;
    vf_check( f.dump( d, 4U*n ) == d, "dump of a long field" );
    same( d, r, n, "dump of a long field" );
    vf_eq_int( d[ n ], 0x12345678U, "dump of a long field stops at its end" );
    vf_check( f.setAll(), "setAll accepted" );
    for ( size_t j = 0U ; j < n ; ++j ) vf_eq_int( a[ j ], 0xFFFFFFFFU, "setAll of a long field" );
    vf_check( f.clearAll(), "clearAll accepted" );
    for ( size_t j = 0U ; j < n ; ++j ) vf_eq_int( a[ j ], 0U, "clearAll of a long field" );
}
/* 300 words: 1200 bytes, 9600 bits */
ENTRY H_bf_large_bytes()
{
    constexpr size_t n = 300U;
    uint32_t *a = static_cast<uint32_t*>( vf_buf( 4U*n, "area" ) );
    for ( size_t j = 0U ; j < n ; ++j ) a[ j ] = 0xA5A50000U + static_cast<uint32_t>( j );
    bitfield f;
    vf_check( f.setup( a, 4U*n ), "setup accepted" );
    for ( size_t j = 0U ; j < n ; j += 7U ) vf_eq_int( f.readUINTn( 32U*j, 32U ), 0xA5A50000U + static_cast<uint32_t>( j ), "word of a long field" );
    vf_eq_int( f.readUINTn( 32U*299U, 32U ), 0xA5A50000U + 299U, "last word of a long field" );
    uint8_t *d = static_cast<uint8_t*>( vf_buf( 4U*n, "dst" ) );
    vf_check( f.dump( d, 4U*n ) == d, "dump of a long field" );
    for ( size_t j = 0U ; j < n ; ++j ) vf_eq_int( d[ 4U*j ], j & 0xFFU, "dump of a long field" );
    vf_check( f.writeBit( 9599U, false ) && f.writeBit( 9598U, true ), "last bits of a long field" );
    vf_eq_int( a[ n - 1U ], 0x65A50000U + 299U, "last bits of a long field" );
    vf_check( f.setAll(), "setAll accepted" );
    for ( size_t j = 0U ; j < n ; ++j ) vf_eq_int( a[ j ], 0xFFFFFFFFU, "setAll of a long field" );
    vf_check( f.clearAll(), "clearAll accepted" );
    for ( size_t j = 0U ; j < n ; ++j ) vf_eq_int( a[ j ], 0U, "clearAll of a long field" );
}
/* every length up to 70 words is covered whole, and nothing past it */
ENTRY H_bf_all_sizes()
{
    for ( size_t n = 1U ; n <= 70U ; ++n ) {
        uint32_t *a = static_cast<uint32_t*>( vf_buf( 4U*n, "area" ) );
        for ( size_t j = 0U ; j < n ; ++j ) a[ j ] = static_cast<uint32_t>( j );
        bitfield f;
        vf_check( f.setup( a, 4U*n ), "setup accepted" );
        vf_check( f.setBit( 32U*n - 1U ) && !f.setBit( 32U*n ), "the last bit belongs to the field and the next does not" );
        vf_eq_int( a[ n - 1U ], 0x80000000U | static_cast<uint32_t>( n - 1U ), "the last bit is in the last word" );
        vf_check( f.setAll(), "setAll accepted" );
        for ( size_t j = 0U ; j < n ; ++j ) vf_eq_int( a[ j ], 0xFFFFFFFFU, "setAll sets every bit" );
        vf_check( f.clearAll(), "clearAll accepted" );
        for ( size_t j = 0U ; j < n ; ++j ) vf_eq_int( a[ j ], 0U, "clearAll clears every bit" );
    }
}
/* 65540 words: more than 2^16 words and 2^21 bits */
ENTRY H_bf_large_huge()
{
    constexpr size_t n = 65540U;
    uint32_t *a = static_cast<uint32_t*>( vf_buf( 4U*n, "area" ) );
    for ( size_t j = 0U ; j < n ; ++j ) a[ j ] = 0U;
    bitfield f;
    vf_check( f.setup( a, 4U*n ), "setup accepted" );
    static const size_t at[] = { 65535U, 65537U, 1048575U, 1048576U, 1048583U, 2097151U, 2097152U, 2097165U, 2097279U };
    for ( size_t k = 0U ; k < 9U ; ++k ) {
        const size_t i = at[ k ];
        const uint32_t w = 1U << ( i & 31U );
        vf_check( f.setBit( i ), "setBit of a very long field" );
        vf_eq_int( a[ i/32U ], w, "setBit of a very long field" );
        vf_check( f.readBit( i ), "readBit of a very long field" );
        vf_check( f.toggleBit( i ), "toggleBit of a very long field" );
        vf_eq_int( a[ i/32U ], 0U, "toggleBit of a very long field" );
        vf_check( f.writeBit( i, true ), "writeBit of a very long field" );
        vf_eq_int( a[ i/32U ], w, "writeBit of a very long field" );
        vf_check( f.clearBit( i ), "clearBit of a very long field" );
        vf_eq_int( a[ i/32U ], 0U, "clearBit of a very long field" );
        if ( k < 8U ) {
            vf_check( f.writeUINTn( i, 17U, 0x1ABCDU ), "writeUINTn of a very long field" );
            vf_eq_int( f.readUINTn( i, 17U ), 0x1ABCDU, "readUINTn of a very long field" );
            vf_eq_int( a[ i/32U ], 0x1ABCDU << ( i & 31U ), "writeUINTn of a very long field" );
            vf_check( f.writeUINTn( i, 17U, 0U ), "writeUINTn of a very long field" );
        }
    }
    vf_check( !f.setBit( 32U*n ), "one past a very long field" );
    vf_check( f.setAll(), "setAll accepted" );
    for ( size_t j = 0U ; j < n ; j += 257U ) vf_eq_int( a[ j ], 0xFFFFFFFFU, "setAll of a very long field" );
    vf_eq_int( a[ n - 1U ], 0xFFFFFFFFU, "setAll of a very long field" );
    vf_check( f.clearAll(), "clearAll accepted" );
    vf_eq_int( a[ n - 1U ], 0U, "clearAll of a very long field" );
}
/* indices and widths that wrap when sums or narrowings are careless */
ENTRY H_bf_reject_huge()
{
    uint32_t *a = static_cast<uint32_t*>( vf_buf( 8U, "area" ) ), r[ 2 ];
    fill( a, 2U );
    memcpy( r, a, 8U );
    bitfield f;
    f.setup( a, 8U );
    const size_t M = ~static_cast<size_t>( 0 );
    const size_t bad[] = { M, M - 1U, M - 7U, M - 31U, M - 32U, M - 63U, M/2U, M/2U + 1U, static_cast<size_t>( 1 ) << 32U, ( static_cast<size_t>( 1 ) << 32U ) + 3U, ( static_cast<size_t>( 1 ) << 37U ) + 3U, 65536U, 65539U, 256U, 259U };
    for ( size_t j = 0U ; j < sizeof( bad )/sizeof( bad[ 0 ] ) ; ++j ) {
        const size_t i = bad[ j ];
        vf_check( !f.setBit( i ) && !f.clearBit( i ) && !f.toggleBit( i ) && !f.readBit( i ) && !f.writeBit( i, true ), "a bit far outside the field is refused" );
        vf_check( !f.writeUINTn( i, 8U, 5U ) && !f.writeUINTn( i, 1U, 1U ) && !f.writeUINTn( i, 32U, 1U ) && !f.writeFloat( i, 1.0F ), "a write far outside the field is refused" );
        vf_eq_int( f.readUINTn( i, 8U ), 0U, "a read far outside the field gives zero" );
        vf_eq_int( f.readUINTn( i, 32U ), 0U, "a read far outside the field gives zero" );
        vf_eq( f.readFloat( i ), 0.0F, "a read far outside the field gives zero" );
        if ( i > 32U ) {
            vf_check( !f.writeUINTn( 0U, i, 5U ), "a width far beyond 32 is refused" );
            vf_eq_int( f.readUINTn( 0U, i ), 0U, "a width far beyond 32 reads zero" );
            uint8_t d[ 8 ];
            vf_check( f.dump( d, i ) == nullptr, "a dump far beyond the field is refused" );
        }
    }
    same( a, r, 2U, "refused accesses leave the field as it was" );
}
ENTRY H_bf_reject()
{
    bitfield u;
    vf_check( !u.setup( nullptr, 4U ), "null area rejected" );
    uint32_t w[ 2 ];
    vf_check( !u.setup( w, 0U ), "empty area rejected" );
    vf_check( !u.setBit( 0U ) && !u.clearBit( 0U ) && !u.toggleBit( 0U ) && !u.readBit( 0U ) && !u.writeBit( 0U, true ), "uninitialised: single bits refused" );
    vf_check( !u.writeUINTn( 0U, 8U, 3U ) && !u.writeFloat( 0U, 1.0F ) && !u.setAll() && !u.clearAll(), "uninitialised: writes refused" );
    vf_eq_int( u.readUINTn( 0U, 8U ), 0U, "uninitialised: reads give zero" );
    vf_eq( u.readFloat( 0U ), 0.0F, "uninitialised: reads give zero" );
    vf_check( u.dump( w, 4U ) == nullptr, "uninitialised: dump refused" );
    for ( size_t n = 1U ; n <= 2U ; ++n ) {
        uint32_t *a = static_cast<uint32_t*>( vf_buf( 4U*n, "area" ) ), r[ 2 ];
        fill( a, n );
        memcpy( r, a, 4U*n );
        bitfield f;
        f.setup( a, 4U*n );
        static const size_t bad[] = { 0U, 1U, 31U, 32U, 1000U };
        for ( size_t j = 0U ; j < 5U ; ++j ) {
            const size_t i = 32U*n + bad[ j ];
            vf_check( !f.setBit( i ) && !f.clearBit( i ) && !f.toggleBit( i ) && !f.readBit( i ) && !f.writeBit( i, true ), "a bit outside the field is refused" );
            vf_check( !f.writeUINTn( i, 8U, vf_u32( "v" ) ) && !f.writeUINTn( i, 1U, 1U ) && !f.writeUINTn( i, 32U, 1U ) && !f.writeFloat( i, 1.0F ), "a write outside the field is refused" );
            vf_eq_int( f.readUINTn( i, 8U ), 0U, "a read outside the field gives zero" );
            vf_eq( f.readFloat( i ), 0.0F, "a read outside the field gives zero" );
        }
        vf_check( !f.writeUINTn( 0U, 33U, vf_u32( "v" ) ), "more than 32 bits refused" );
        vf_eq_int( f.readUINTn( 0U, 33U ), 0U, "more than 32 bits read as zero" );
        vf_eq_int( f.readUINTn( 0U, 0U ), 0U, "no bits read as zero" );
        (void) f.writeUINTn( 3U, 0U, vf_u32( "v" ) );
        same( a, r, n, "refused accesses leave the field as it was" );
    }
    for ( size_t b = 4U ; b <= 9U ; ++b ) {   /* trailing bytes of an odd-sized area are not part of the field */
        uint8_t *a = static_cast<uint8_t*>( vf_buf( b, "area" ) );
        for ( size_t j = 0U ; j < b ; ++j ) a[ j ] = vf_u8( "b" );
        bitfield f;
        if ( f.setup( a, b ) ) {
            for ( size_t i = 0U ; i < 8U*b ; i += 8U ) { (void) f.setBit( i ); (void) f.readUINTn( i, 17U ); (void) f.writeUINTn( i, 17U, vf_u32( "v" ) ); }
            f.clearAll();
            f.setAll();
            uint8_t d[ 16 ];
            (void) f.dump( d, b );
        }
    }
}
/* ------------------------------------------------------------------------ CRC */
static uint32_t rev( uint32_t v, unsigned w )
{
    uint32_t r = 0U;
    for ( unsigned i = 0U ; i < w ; ++i ) r = ( r << 1 ) | ( ( v >> i ) & 1U );
    return r;
}
/* the textbook definition: long division of the message polynomial, bit by bit */
static uint32_t division( unsigned w, const uint8_t *m, size_t n, uint32_t poly, uint32_t init, bool ri, bool ro, uint32_t xo )
{
    uint32_t reg[ 32 ], g[ 32 ];
    for ( unsigned j = 0U ; j < w ; ++j ) { reg[ j ] = ( init >> j ) & 1U; g[ j ] = ( poly >> j ) & 1U; }
    for ( size_t i = 0U ; i < n ; ++i ) {
        for ( unsigned b = 0U ; b < 8U ; ++b ) {
            const uint32_t in = ( m[ i ] >> ( ri ? b : ( 7U - b ) ) ) & 1U;
            const uint32_t fb = reg[ w - 1U ] ^ in;
            for ( unsigned j = w - 1U ; j > 0U ; --j ) reg[ j ] = reg[ j - 1U ] ^ ( g[ j ] & fb );
            reg[ 0 ] = g[ 0 ] & fb;
        }
    }
    uint32_t r = 0U;
    for ( unsigned j = 0U ; j < w ; ++j ) r |= reg[ j ] << ( ro ? ( w - 1U - j ) : j );
    return ( r ^ xo ) & ( 0xFFFFFFFFU >> ( 32U - w ) );
}
static uint8_t *message( size_t n )
{
    uint8_t *m = static_cast<uint8_t*>( vf_buf( n, "msg" ) );
    for ( size_t i = 0U ; i < n ; ++i ) m[ i ] = vf_u8( "m" );
    return m;
}
static void crc_generic( const crcMode mode, const unsigned w, const uint32_t poly )
{
    for ( unsigned f = 0U ; f < 4U ; ++f ) {
        for ( size_t n = 1U ; n <= 8U ; n += ( n < 3U ) ? 1U : 5U ) {
            const uint8_t *m = message( n );
            const uint32_t init = vf_u32( "init" ) , xo = vf_u32( "xorOut" );
            const bool ri = ( f & 1U ) != 0U, ro = ( f & 2U ) != 0U;
            vf_eq_int( crc::generic( mode, m, n, poly, init, ri, ro, xo ), division( w, m, n, poly, init, ri, ro, xo ),
                       "the checksum is the remainder of the message polynomial" );
        }
    }
}
ENTRY H_crc_generic8() { crc_generic( CRC8, 8U, 0x9BU ); crc_generic( CRC8, 8U, 0xFFFFFF07U ); }
ENTRY H_crc_generic16() { crc_generic( CRC16, 16U, 0x8005U ); crc_generic( CRC16, 16U, 0xABCD1021U ); }
ENTRY H_crc_generic32() { crc_generic( CRC32, 32U, 0x04C11DB7U ); crc_generic( CRC32, 32U, 0xA833982BU ); }
ENTRY H_crc_anypoly8()
{
    const uint8_t *m = message( 1U );
    static const uint32_t inits[] = { 0U, 0xFFFFFFFFU, 0x1D0FU };
    for ( unsigned k = 0U ; k < 3U ; ++k ) {
        const uint32_t poly = vf_u32( "poly" );
        vf_eq_int( crc::generic( CRC8, m, 1U, poly, inits[ k ] ), division( 8U, m, 1U, poly, inits[ k ], false, false, 0U ), "any 8 bit polynomial" );
    }
}
ENTRY H_crc_anypoly()
{
    static const uint8_t msgs[] = { 0x01U, 0x80U, 0xA7U };
    for ( unsigned k = 0U ; k < 3U ; ++k ) {
        const uint32_t poly = vf_u32( "poly" );
        vf_eq_int( crc::generic( CRC16, &msgs[ k ], 1U, poly, 0x1D0FU, true ), division( 16U, &msgs[ k ], 1U, poly, 0x1D0FU, true, false, 0U ), "any 16 bit polynomial" );
        vf_eq_int( crc::generic( CRC32, &msgs[ k ], 1U, poly, 0xFFFFFFFFU, false, true ), division( 32U, &msgs[ k ], 1U, poly, 0xFFFFFFFFU, false, true, 0U ), "any 32 bit polynomial" );
    }
}
/* a long message is the continuation of its prefix: no length is special */
static void crc_long( const crcMode mode, const size_t n )
{
    uint8_t *m = static_cast<uint8_t*>( vf_buf( n, "msg" ) );
    for ( size_t i = 0U ; i < n ; ++i ) m[ i ] = static_cast<uint8_t>( 7U*i );
    m[ 0 ] = vf_u8( "first" );
    m[ n - 1U ] = vf_u8( "last" );
    const uint32_t whole = crc::generic( mode, m, n, 0xA001U, 0x5AU, true );
    uint32_t part = 0x5AU;
    for ( size_t i = 0U ; i < n ; i += 100U ) part = crc::generic( mode, m + i, ( ( n - i ) < 100U ) ? ( n - i ) : 100U, 0xA001U, part, true );
    vf_eq_int( whole, part, "the checksum of a long message continues the checksum of its prefix" );
}
ENTRY H_crc_long8() { crc_long( CRC8, 600U ); }
ENTRY H_crc_long32() { crc_long( CRC32, 600U ); }
/* leading zeros do not change a zero register: only the tail counts, however long the prefix is */
ENTRY H_crc_long_big()
{
    const size_t n = 65536U + 3U;
    uint8_t *m = static_cast<uint8_t*>( vf_buf( n, "msg" ) );
    for ( size_t i = 0U ; i < n ; ++i ) m[ i ] = 0U;
    m[ n - 2U ] = vf_u8( "m" );
    m[ n - 1U ] = vf_u8( "m" );
    vf_eq_int( crc::generic( CRC16, m, n, 0x1021U, 0U ), crc::generic( CRC16, m + ( n - 2U ), 2U, 0x1021U, 0U ), "every byte of a long message counts" );
}
ENTRY HT_crc_long16() { crc_long( CRC16, 66000U ); }
ENTRY H_crc_reject()
{
    const uint8_t *m = message( 2U );
    for ( int mode = 0 ; mode <= 2 ; ++mode ) {
        vf_eq_int( crc::generic( static_cast<crcMode>( mode ), nullptr, 2U, 7U, 1U ), 0U, "no data gives 0" );
        vf_eq_int( crc::generic( static_cast<crcMode>( mode ), m, 0U, 7U, 1U ), 0U, "empty data gives 0" );
    }
    vf_eq_int( crc::generic( static_cast<crcMode>( 3 ), m, 2U, 7U, 1U ), 0U, "unknown width gives 0" );
}
#define V( w, f, poly, init, ri, ro, xo ) \
    for ( size_t n = 1U ; n <= 3U ; ++n ) { const uint8_t *m = message( n ); \
        vf_eq_int( crc::f( m, n ), division( w, m, n, poly, init, ri, ro, xo ), #f " follows its published parameters" ); }
ENTRY H_crc_named8()
{
    V( 8, crc8, 0x07, 0, false, false, 0 )
    V( 8, crc8_CDMA2000, 0x9B, 0xFF, false, false, 0 )
    V( 8, crc8_DARC, 0x39, 0, true, true, 0 )
    V( 8, crc8_DVS_S2, 0xD5, 0, false, false, 0 )
    V( 8, crc8_EBU, 0x1D, 0xFF, true, true, 0 )
    V( 8, crc8_I_CODE, 0x1D, 0xFD, false, false, 0 )
    V( 8, crc8_ITU, 0x07, 0, false, false, 0x55 )
    V( 8, crc8_MAXIM, 0x31, 0, true, true, 0 )
    V( 8, crc8_ROHC, 0x07, 0xFF, true, true, 0 )
    V( 8, crc8_WCDMA, 0x9B, 0, true, true, 0 )
}
ENTRY H_crc_named16()
{
    V( 16, crc16_CCITT_FALSE, 0x1021, 0xFFFF, false, false, 0 )
    V( 16, crc16_ARC, 0x8005, 0, true, true, 0 )
    V( 16, crc16_AUG_CCITT, 0x1021, 0x1D0F, false, false, 0 )
    V( 16, crc16_BUYPASS, 0x8005, 0, false, false, 0 )
    V( 16, crc16_CDMA2000, 0xC867, 0xFFFF, false, false, 0 )
    V( 16, crc16_DDS_110, 0x8005, 0x800D, false, false, 0 )
    V( 16, crc16_DECT_R, 0x0589, 0, false, false, 1 )
    V( 16, crc16_DECT_X, 0x0589, 0, false, false, 0 )
    V( 16, crc16_DNP, 0x3D65, 0, true, true, 0xFFFF )
    V( 16, crc16_EN_13757, 0x3D65, 0, false, false, 0xFFFF )
    V( 16, crc16_GENIBUS, 0x1021, 0xFFFF, false, false, 0xFFFF )
    V( 16, crc16_MAXIM, 0x8005, 0, true, true, 0xFFFF )
    V( 16, crc16_MCRF4XX, 0x1021, 0xFFFF, true, true, 0 )
    V( 16, crc16_RIELLO, 0x1021, 0xB2AA, true, true, 0 )
    V( 16, crc16_T10_DIF, 0x8BB7, 0, false, false, 0 )
    V( 16, crc16_TELEDISK, 0xA097, 0, false, false, 0 )
    V( 16, crc16_TMS37157, 0x1021, 0x89EC, true, true, 0 )
    V( 16, crc16_USB, 0x8005, 0xFFFF, true, true, 0xFFFF )
    V( 16, crc16_A, 0x1021, 0xC6C6, true, true, 0 )
    V( 16, crc16_KERMIT, 0x1021, 0, true, true, 0 )
    V( 16, crc16_MODBUS, 0x8005, 0xFFFF, true, true, 0 )
    V( 16, crc16_X_25, 0x1021, 0xFFFF, true, true, 0xFFFF )
    V( 16, crc16_XMODEM, 0x1021, 0, false, false, 0 )
}
ENTRY H_crc_named32()
{
    V( 32, crc32, 0x04C11DB7, 0xFFFFFFFF, true, true, 0xFFFFFFFF )
    V( 32, crc32_BZIP2, 0x04C11DB7, 0xFFFFFFFF, false, false, 0xFFFFFFFF )
    V( 32, crc32_C, 0x1EDC6F41, 0xFFFFFFFF, true, true, 0xFFFFFFFF )
    V( 32, crc32_D, 0xA833982B, 0xFFFFFFFF, true, true, 0xFFFFFFFF )
    V( 32, crc32_JAMCRC, 0x04C11DB7, 0xFFFFFFFF, true, true, 0 )
    V( 32, crc32_MPEG2, 0x04C11DB7, 0xFFFFFFFF, false, false, 0 )
    V( 32, crc32_POSIX, 0x04C11DB7, 0, false, false, 0xFFFFFFFF )
    V( 32, crc32_Q, 0x814141AB, 0, false, false, 0 )
    V( 32, crc32_XFER, 0x000000AF, 0, false, false, 0 )
}
/* a message of several hundred bytes, against the generic function with the published parameters */
static const uint8_t *longmsg( const size_t n )
{
    uint8_t *m = static_cast<uint8_t*>( vf_buf( n, "msg" ) );
    for ( size_t i = 0U ; i < n ; ++i ) m[ i ] = static_cast<uint8_t>( 11U*i + ( i >> 8U ) + 3U );
    return m;
}
#undef V
#define V( w, f, poly, init, ri, ro, xo ) vf_eq_int( crc::f( m, n ), crc::generic( CRC##w, m, n, poly, init, ri, ro, xo ), #f " of a long message follows its published parameters" );
ENTRY H_crc_named8_long()
{
    static const size_t len[] = { 4U, 5U, 8U, 17U, 64U, 255U, 256U, 257U, 700U };
    for ( size_t k = 0U ; k < 9U ; ++k ) {
        const size_t n = len[ k ];
        const uint8_t *m = longmsg( n );
        V( 8, crc8, 0x07, 0, false, false, 0 )
        V( 8, crc8_CDMA2000, 0x9B, 0xFF, false, false, 0 )
        V( 8, crc8_DARC, 0x39, 0, true, true, 0 )
        V( 8, crc8_DVS_S2, 0xD5, 0, false, false, 0 )
        V( 8, crc8_EBU, 0x1D, 0xFF, true, true, 0 )
        V( 8, crc8_I_CODE, 0x1D, 0xFD, false, false, 0 )
        V( 8, crc8_ITU, 0x07, 0, false, false, 0x55 )
        V( 8, crc8_MAXIM, 0x31, 0, true, true, 0 )
        V( 8, crc8_ROHC, 0x07, 0xFF, true, true, 0 )
        V( 8, crc8_WCDMA, 0x9B, 0, true, true, 0 )
    }
}
ENTRY H_crc_named16_long()
{
    static const size_t len[] = { 4U, 5U, 8U, 17U, 64U, 255U, 256U, 257U, 700U };
    for ( size_t k = 0U ; k < 9U ; ++k ) {
        const size_t n = len[ k ];
        const uint8_t *m = longmsg( n );
        V( 16, crc16_CCITT_FALSE, 0x1021, 0xFFFF, false, false, 0 )
        V( 16, crc16_ARC, 0x8005, 0, true, true, 0 )
        V( 16, crc16_AUG_CCITT, 0x1021, 0x1D0F, false, false, 0 )
        V( 16, crc16_BUYPASS, 0x8005, 0, false, false, 0 )
        V( 16, crc16_CDMA2000, 0xC867, 0xFFFF, false, false, 0 )
        V( 16, crc16_DDS_110, 0x8005, 0x800D, false, false, 0 )
        V( 16, crc16_DECT_R, 0x0589, 0, false, false, 1 )
        V( 16, crc16_DECT_X, 0x0589, 0, false, false, 0 )
        V( 16, crc16_DNP, 0x3D65, 0, true, true, 0xFFFF )
        V( 16, crc16_EN_13757, 0x3D65, 0, false, false, 0xFFFF )
        V( 16, crc16_GENIBUS, 0x1021, 0xFFFF, false, false, 0xFFFF )
        V( 16, crc16_MAXIM, 0x8005, 0, true, true, 0xFFFF )
        V( 16, crc16_MCRF4XX, 0x1021, 0xFFFF, true, true, 0 )
        V( 16, crc16_RIELLO, 0x1021, 0xB2AA, true, true, 0 )
        V( 16, crc16_T10_DIF, 0x8BB7, 0, false, false, 0 )
        V( 16, crc16_TELEDISK, 0xA097, 0, false, false, 0 )
        V( 16, crc16_TMS37157, 0x1021, 0x89EC, true, true, 0 )
        V( 16, crc16_USB, 0x8005, 0xFFFF, true, true, 0xFFFF )
        V( 16, crc16_A, 0x1021, 0xC6C6, true, true, 0 )
        V( 16, crc16_KERMIT, 0x1021, 0, true, true, 0 )
        V( 16, crc16_MODBUS, 0x8005, 0xFFFF, true, true, 0 )
        V( 16, crc16_X_25, 0x1021, 0xFFFF, true, true, 0xFFFF )
        V( 16, crc16_XMODEM, 0x1021, 0, false, false, 0 )
    }
}
ENTRY H_crc_named32_long()
{
    static const size_t len[] = { 4U, 5U, 8U, 17U, 64U, 255U, 256U, 257U, 700U };
    for ( size_t k = 0U ; k < 9U ; ++k ) {
        const size_t n = len[ k ];
        const uint8_t *m = longmsg( n );
        V( 32, crc32, 0x04C11DB7, 0xFFFFFFFF, true, true, 0xFFFFFFFF )
        V( 32, crc32_BZIP2, 0x04C11DB7, 0xFFFFFFFF, false, false, 0xFFFFFFFF )
        V( 32, crc32_C, 0x1EDC6F41, 0xFFFFFFFF, true, true, 0xFFFFFFFF )
        V( 32, crc32_D, 0xA833982B, 0xFFFFFFFF, true, true, 0xFFFFFFFF )
        V( 32, crc32_JAMCRC, 0x04C11DB7, 0xFFFFFFFF, true, true, 0 )
        V( 32, crc32_MPEG2, 0x04C11DB7, 0xFFFFFFFF, false, false, 0 )
        V( 32, crc32_POSIX, 0x04C11DB7, 0, false, false, 0xFFFFFFFF )
        V( 32, crc32_Q, 0x814141AB, 0, false, false, 0 )
        V( 32, crc32_XFER, 0x000000AF, 0, false, false, 0 )
    }
}
