#include "vf.hpp"
#include <include/algorithm.hpp>
using namespace qlibs;

/* Elements carry a key (few arbitrary bits, enough to realise every order with ties of n elements) and a tag that identifies them. */
struct item {
    uint8_t key;
    uint8_t tag;
};
static inline bool operator<( const item& a, const item& b ) { return a.key < b.key; }
static inline bool operator==( const item& a, const item& b ) { return a.key == b.key; }
static bool greater( const item& a, const item& b ) { return b.key < a.key; }
static bool odd( const item a ) { return 0U != ( a.key & 1U ); }
static bool oddr( const item& a ) { return 0U != ( a.key & 1U ); }
static void touch( item& a ) { a.key = static_cast<uint8_t>( a.key ^ 0x40U ); ++a.tag; }

template <size_t n>
static void load( item (&a)[ n ], item (&r)[ n ], const uint8_t mask )
{
    for ( size_t i = 0U ; i < n ; ++i ) {
        a[ i ].key = vf_u8( "key" ) & mask;
        a[ i ].tag = static_cast<uint8_t>( 1U << i );
        r[ i ] = a[ i ];
    }
}
template <size_t n>
static void outside( const item (&a)[ n ], const item (&r)[ n ], size_t f, size_t l )
{
    for ( size_t i = 0U ; i < n ; ++i ) {
        if ( ( i < f ) || ( i > l ) ) {
            vf_eq_int( a[ i ].key, r[ i ].key, "elements outside the range are not touched" );
            vf_eq_int( a[ i ].tag, r[ i ].tag, "elements outside the range are not touched" );
        }
    }
}
template <size_t n>
static void sorted( const size_t f, const size_t l, const bool desc, const uint8_t mask )
{
    struct { item pre[ 1 ]; item a[ n ]; item post[ 1 ]; } s;
    item r[ n ];
    s.pre[ 0 ].key = 0U; s.pre[ 0 ].tag = 0xEEU;
    s.post[ 0 ].key = 0xFFU; s.post[ 0 ].tag = 0xEEU;
    load( s.a, r, mask );
    if ( desc ) {
        algorithm::sort( s.a, f, l, greater );
    }
    else {
        algorithm::sort( s.a, f, l );
    }
    for ( size_t i = f ; i < l ; ++i ) {
        vf_check( desc ? ( s.a[ i ].key >= s.a[ i + 1U ].key ) : ( s.a[ i ].key <= s.a[ i + 1U ].key ), "the range is ordered" );
    }
    uint32_t seen = 0U;
    for ( size_t i = f ; i <= l ; ++i ) seen |= s.a[ i ].tag;
    vf_eq_int( seen, ( ( 1U << ( l + 1U ) ) - 1U ) & ~( ( 1U << f ) - 1U ), "the range holds the same elements" );
    for ( size_t i = f ; i <= l ; ++i ) {
        for ( size_t j = f ; j <= l ; ++j ) {
            vf_check( ( s.a[ i ].tag != ( 1U << j ) ) || ( s.a[ i ].key == r[ j ].key ), "elements are moved whole" );
        }
    }
    outside( s.a, r, f, l );
    vf_check( ( 0xEEU == s.pre[ 0 ].tag ) && ( 0U == s.pre[ 0 ].key ) && ( 0xEEU == s.post[ 0 ].tag ) && ( 0xFFU == s.post[ 0 ].key ), "nothing around the array is written" );
}
ENTRY H_sort_1() { sorted<1>( 0U, 0U, false, 3U ); sorted<1>( 0U, 0U, true, 3U ); }
ENTRY H_sort_2() { sorted<2>( 0U, 1U, false, 3U ); sorted<2>( 0U, 1U, true, 3U ); }
ENTRY H_sort_3() { sorted<3>( 0U, 2U, false, 3U ); }
ENTRY H_sort_3d() { sorted<3>( 0U, 2U, true, 3U ); }
ENTRY H_sort_4() { sorted<4>( 0U, 3U, false, 3U ); }
ENTRY H_sort_4d() { sorted<4>( 0U, 3U, true, 3U ); }
ENTRY H_sort_part() { sorted<5>( 1U, 3U, false, 3U ); sorted<5>( 1U, 3U, true, 3U ); sorted<4>( 2U, 2U, false, 3U ); sorted<4>( 0U, 1U, true, 3U ); sorted<5>( 2U, 4U, false, 3U ); }
ENTRY H_sort_5() { sorted<5>( 0U, 4U, false, 7U ); }
ENTRY H_sort_5d() { sorted<5>( 0U, 4U, true, 7U ); }

/* long concrete sequences: pending sub-ranges, sizes beyond the symbolic ones */
template <size_t n>
static void sorted_long( const int kind )
{
    int a[ n ];
    for ( size_t i = 0U ; i < n ; ++i ) {
        const int x = static_cast<int>( i );
        a[ i ] = ( 0 == kind ) ? x : ( ( 1 == kind ) ? -x : ( ( 2 == kind ) ? 7 : ( ( 3 == kind ) ? static_cast<int>( ( i*7919U )%n ) - 5 : ( ( i & 1U ) ? x : -x ) ) ) );
    }
    algorithm::sort( a );
    for ( size_t i = 0U ; i + 1U < n ; ++i ) vf_check( a[ i ] <= a[ i + 1U ], "the array is ordered" );
}
ENTRY H_sort_long() { sorted_long<20>( 0 ); sorted_long<20>( 1 ); sorted_long<20>( 2 ); sorted_long<41>( 3 ); sorted_long<33>( 4 ); }

/* orders that leave as many sub-ranges pending as possible (every partition cuts off a range of two) */
static const int deep_40_1[ 40 ] = {
    0, 1, 5, 3, 4, 8, 6, 7, 11, 9, 10, 14, 12, 13, 17, 15, 16, 20, 18, 19, 23, 21, 22, 26, 24, 25, 29, 27, 28, 32, 30,
    31, 35, 33, 34, 39, 36, 37, 38, 2 };
static const int deep_40_0[ 40 ] = {
    38, 39, 35, 36, 32, 33, 29, 30, 26, 27, 23, 24, 20, 21, 17, 18, 14, 15, 11, 12, 8, 9, 5, 6, 0, 1, 2, 3, 4, 7, 10,
    13, 16, 19, 22, 25, 28, 31, 34, 37 };
static const int deep_210_1[ 210 ] = {
    0, 1, 5, 3, 4, 8, 6, 7, 11, 9, 10, 14, 12, 13, 17, 15, 16, 20, 18, 19, 23, 21, 22, 26, 24, 25, 29, 27, 28, 32, 30,
    31, 35, 33, 34, 38, 36, 37, 41, 39, 40, 44, 42, 43, 47, 45, 46, 50, 48, 49, 53, 51, 52, 56, 54, 55, 59, 57, 58, 62,
    60, 61, 65, 63, 64, 68, 66, 67, 71, 69, 70, 74, 72, 73, 77, 75, 76, 80, 78, 79, 83, 81, 82, 86, 84, 85, 89, 87, 88,
    92, 90, 91, 95, 93, 94, 98, 96, 97, 101, 99, 100, 104, 102, 103, 107, 105, 106, 110, 108, 109, 113, 111, 112, 116,
    114, 115, 119, 117, 118, 122, 120, 121, 125, 123, 124, 128, 126, 127, 131, 129, 130, 134, 132, 133, 137, 135, 136,
    140, 138, 139, 143, 141, 142, 146, 144, 145, 149, 147, 148, 152, 150, 151, 155, 153, 154, 158, 156, 157, 161, 159,
    160, 164, 162, 163, 167, 165, 166, 170, 168, 169, 173, 171, 172, 176, 174, 175, 179, 177, 178, 182, 180, 181, 185,
    183, 184, 188, 186, 187, 191, 189, 190, 194, 192, 193, 197, 195, 196, 200, 198, 199, 203, 201, 202, 206, 204, 205,
    209, 207, 208, 2 };
static const int deep_210_0[ 210 ] = {
    208, 209, 205, 206, 202, 203, 199, 200, 196, 197, 193, 194, 190, 191, 187, 188, 184, 185, 181, 182, 178, 179, 175,
    176, 172, 173, 169, 170, 166, 167, 163, 164, 160, 161, 157, 158, 154, 155, 151, 152, 148, 149, 145, 146, 142, 143,
    139, 140, 136, 137, 133, 134, 130, 131, 127, 128, 124, 125, 121, 122, 118, 119, 115, 116, 112, 113, 109, 110, 106,
    107, 103, 104, 100, 101, 97, 98, 94, 95, 91, 92, 88, 89, 85, 86, 82, 83, 79, 80, 76, 77, 73, 74, 70, 71, 67, 68, 64,
    65, 61, 62, 58, 59, 55, 56, 52, 53, 49, 50, 46, 47, 43, 44, 40, 41, 37, 38, 34, 35, 31, 32, 28, 29, 25, 26, 22, 23,
    19, 20, 16, 17, 13, 14, 10, 11, 7, 8, 4, 5, 0, 1, 2, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48,
    51, 54, 57, 60, 63, 66, 69, 72, 75, 78, 81, 84, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117, 120, 123, 126,
    129, 132, 135, 138, 141, 144, 147, 150, 153, 156, 159, 162, 165, 168, 171, 174, 177, 180, 183, 186, 189, 192, 195,
    198, 201, 204, 207 };
static bool greater_int( const int& a, const int& b ) { return b < a; }
template <size_t n>
static void sorted_deep( const int ( &src )[ n ], const bool desc )
{
    int a[ n ];
    for ( size_t i = 0U ; i < n ; ++i ) a[ i ] = desc ? -src[ i ] : src[ i ];
    if ( desc ) { algorithm::sort( a, 0U, n - 1U, greater_int ); } else { algorithm::sort( a ); }
    for ( size_t i = 0U ; i < n ; ++i ) vf_check( a[ i ] == ( desc ? -static_cast<int>( i ) : static_cast<int>( i ) ), "a permutation of 0..n-1 is sorted" );
}
ENTRY H_sort_deep_a() { sorted_deep( deep_40_1, false ); sorted_deep( deep_40_0, false ); sorted_deep( deep_40_1, true ); sorted_deep( deep_40_0, true ); }
ENTRY H_sort_deep_b() { sorted_deep( deep_210_1, false ); }
ENTRY H_sort_deep_c() { sorted_deep( deep_210_0, false ); }

template <size_t n>
static void reversed()
{
    for ( size_t f = 0U ; f < n ; ++f ) {
        for ( size_t l = f ; l < n ; ++l ) {
            item a[ n ], r[ n ];
            load( a, r, 0xFFU );
            algorithm::reverse( a, f, l );
            for ( size_t i = f ; i <= l ; ++i ) {
                vf_eq_int( a[ i ].key, r[ l - ( i - f ) ].key, "reverse mirrors the range" );
                vf_eq_int( a[ i ].tag, r[ l - ( i - f ) ].tag, "reverse mirrors the range" );
            }
            outside( a, r, f, l );
        }
    }
    item a[ n ], r[ n ];
    load( a, r, 0xFFU );
    algorithm::reverse( a );
    for ( size_t i = 0U ; i < n ; ++i ) vf_eq_int( a[ i ].key, r[ n - 1U - i ].key, "reverse mirrors the array" );
}
ENTRY H_reverse() { reversed<1>(); reversed<2>(); reversed<3>(); reversed<4>(); reversed<5>(); }

template <size_t n>
static void rotated( const int k )
{
    item a[ n ], r[ n ];
    load( a, r, 0xFFU );
    algorithm::rotate( a, k );
    const long long N = static_cast<long long>( n );
    for ( size_t i = 0U ; i < n ; ++i ) {
        const long long src = ( ( ( static_cast<long long>( i ) - k ) % N ) + N ) % N;
        vf_eq_int( a[ i ].key, r[ src ].key, "rotate moves every element k places to the right" );
        vf_eq_int( a[ i ].tag, r[ src ].tag, "rotate moves every element k places to the right" );
    }
}
template <size_t n>
static void rotations()
{
    const int N = static_cast<int>( n );
    for ( int k = -2*N - 1 ; k <= 2*N + 1 ; ++k ) rotated<n>( k );
    rotated<n>( 2147483647 );
    rotated<n>( -2147483647 );
    rotated<n>( -2147483647 - 1 );
    rotated<n>( 65536 );
    rotated<n>( -65537 );
    rotated<n>( 1000000*N );
    rotated<n>( -1000000*N );
    item a[ n ], r[ n ];
    load( a, r, 0xFFU );
    algorithm::rotate( a );
    for ( size_t i = 0U ; i < n ; ++i ) vf_eq_int( a[ i ].key, r[ ( i + n - 1U ) % n ].key, "one place to the right by default" );
}
ENTRY H_rotate() { rotations<1>(); rotations<2>(); rotations<3>(); rotations<4>(); rotations<5>(); }

template <size_t n>
static void scans( const size_t f, const size_t l )
{
    item a[ n ], r[ n ];
    /* fill */
    load( a, r, 0xFFU );
    item v;
    v.key = vf_u8( "v" );
    v.tag = 0x77U;
    algorithm::fill( a, v, f, l );
    for ( size_t i = f ; i <= l ; ++i ) {
        vf_eq_int( a[ i ].key, v.key, "fill writes every element of the range" );
        vf_eq_int( a[ i ].tag, v.tag, "fill writes every element of the range" );
    }
    outside( a, r, f, l );
    /* find */
    load( a, r, 0xFFU );
    item *p = algorithm::find( a, v, f, l );
    item *q = nullptr;
    for ( size_t i = l + 1U ; i > f ; --i ) if ( r[ i - 1U ].key == v.key ) q = &a[ i - 1U ];
    vf_check( p == q, "find returns the first equal element or null" );
    outside( a, r, n, n );
    /* predicates */
    load( a, r, 0xFFU );
    size_t c = 0U;
    for ( size_t i = f ; i <= l ; ++i ) c += odd( r[ i ] ) ? 1U : 0U;
    vf_check( algorithm::any_of( a, odd, f, l ) == ( c > 0U ), "any_of" );
    vf_check( algorithm::all_of( a, odd, f, l ) == ( c == ( l - f + 1U ) ), "all_of" );
    vf_eq_int( algorithm::count_if( a, odd, f, l ), c, "count_if" );
    p = algorithm::find_if( a, odd, f, l );
    q = nullptr;
    for ( size_t i = l + 1U ; i > f ; --i ) if ( odd( r[ i - 1U ] ) ) q = &a[ i - 1U ];
    vf_check( p == q, "find_if returns the first match or null" );
    outside( a, r, n, n );
    /* replacements */
    load( a, r, 0xFFU );
    item o, w;
    o.key = vf_u8( "o" ); o.tag = 0U;
    w.key = vf_u8( "w" ); w.tag = 0x99U;
    algorithm::replace( a, o, w, f, l );
    for ( size_t i = f ; i <= l ; ++i ) {
        const bool m = r[ i ].key == o.key;
        vf_eq_int( a[ i ].key, m ? w.key : r[ i ].key, "replace changes exactly the equal elements" );
        vf_eq_int( a[ i ].tag, m ? w.tag : r[ i ].tag, "replace changes exactly the equal elements" );
    }
    outside( a, r, f, l );
    load( a, r, 0xFFU );
    algorithm::replace_if( a, oddr, w, f, l );
    for ( size_t i = f ; i <= l ; ++i ) {
        vf_eq_int( a[ i ].key, odd( r[ i ] ) ? w.key : r[ i ].key, "replace_if changes exactly the matching elements" );
        vf_eq_int( a[ i ].tag, odd( r[ i ] ) ? w.tag : r[ i ].tag, "replace_if changes exactly the matching elements" );
    }
    outside( a, r, f, l );
    /* for_each */
    load( a, r, 0xFFU );
    algorithm::for_each( a, touch, f, l );
    for ( size_t i = f ; i <= l ; ++i ) {
        vf_eq_int( a[ i ].key, r[ i ].key ^ 0x40U, "for_each applies the function once to every element" );
        vf_eq_int( a[ i ].tag, static_cast<uint8_t>( r[ i ].tag + 1U ), "for_each applies the function once to every element" );
    }
    outside( a, r, f, l );
}
template <size_t n>
static void allscans()
{
    for ( size_t f = 0U ; f < n ; ++f ) for ( size_t l = f ; l < n ; ++l ) scans<n>( f, l );
}
ENTRY H_scan_1() { allscans<1>(); }
ENTRY H_scan_2() { allscans<2>(); }
ENTRY H_scan_4() { allscans<4>(); }
ENTRY H_scan_defaults()
{
    item a[ 3 ], r[ 3 ], v, w;
    v.key = vf_u8( "v" ); v.tag = 0U;
    w.key = vf_u8( "w" ); w.tag = 0x99U;
    load( a, r, 0xFFU );
    const size_t c = ( odd( r[ 0 ] ) ? 1U : 0U ) + ( odd( r[ 1 ] ) ? 1U : 0U ) + ( odd( r[ 2 ] ) ? 1U : 0U );
    vf_check( algorithm::any_of( a, odd ) == ( c > 0U ), "any_of covers the whole array" );
    vf_check( algorithm::all_of( a, odd ) == ( c == 3U ), "all_of covers the whole array" );
    vf_eq_int( algorithm::count_if( a, odd ), c, "count_if covers the whole array" );
    item *q = ( r[ 0 ].key == v.key ) ? &a[ 0 ] : ( ( r[ 1 ].key == v.key ) ? &a[ 1 ] : ( ( r[ 2 ].key == v.key ) ? &a[ 2 ] : nullptr ) );
    vf_check( algorithm::find( a, v ) == q, "find covers the whole array" );
    q = odd( r[ 0 ] ) ? &a[ 0 ] : ( odd( r[ 1 ] ) ? &a[ 1 ] : ( odd( r[ 2 ] ) ? &a[ 2 ] : nullptr ) );
    vf_check( algorithm::find_if( a, odd ) == q, "find_if covers the whole array" );
    algorithm::replace( a, v, w );
    for ( size_t i = 0U ; i < 3U ; ++i ) vf_eq_int( a[ i ].tag, ( r[ i ].key == v.key ) ? w.tag : r[ i ].tag, "replace covers the whole array" );
    load( a, r, 0xFFU );
    algorithm::replace_if( a, oddr, w );
    for ( size_t i = 0U ; i < 3U ; ++i ) vf_eq_int( a[ i ].tag, odd( r[ i ] ) ? w.tag : r[ i ].tag, "replace_if covers the whole array" );
    load( a, r, 0xFFU );
    algorithm::for_each( a, touch );
    for ( size_t i = 0U ; i < 3U ; ++i ) vf_eq_int( a[ i ].key, r[ i ].key ^ 0x40U, "for_each covers the whole array" );
    algorithm::fill( a, w );
    for ( size_t i = 0U ; i < 3U ; ++i ) vf_eq_int( a[ i ].tag, w.tag, "fill covers the whole array" );
    item x, y, x0, y0;
    x.key = vf_u8( "x" ); x.tag = vf_u8( "xt" );
    y.key = vf_u8( "y" ); y.tag = vf_u8( "yt" );
    x0 = x; y0 = y;
    algorithm::swap( x, y );
    vf_check( ( x.key == y0.key ) && ( x.tag == y0.tag ) && ( y.key == x0.key ) && ( y.tag == x0.tag ), "swap exchanges whole objects" );
    algorithm::swap( x, x );
    vf_check( ( x.key == y0.key ) && ( x.tag == y0.tag ), "swap with itself" );
}

template <size_t n>
static void bsearch( const size_t f, const size_t l, const uint8_t mask )
{
    uint8_t a[ n ], r[ n ];
    for ( size_t i = 0U ; i < n ; ++i ) r[ i ] = a[ i ] = vf_u8( "e" ) & mask;
    for ( size_t i = f ; i < l ; ++i ) vf_assume( a[ i ] <= a[ i + 1U ] );
    const uint8_t key = vf_u8( "key" ) & mask;
    uint8_t *p = algorithm::binary_search( a, key, f, l );
    if ( ( 0U == f ) && ( ( n - 1U ) == l ) ) {
        vf_check( p == algorithm::binary_search( a, key ), "binary_search covers the whole array by default" );
        vf_check( p == algorithm::binary_search( a, key, f ), "binary_search goes to the end of the array by default" );
    }
    bool present = false, inside = ( nullptr == p );
    for ( size_t i = f ; i <= l ; ++i ) {
        present = present || ( r[ i ] == key );
        inside = inside || ( ( p == &a[ i ] ) && ( r[ i ] == key ) );
    }
    vf_check( ( nullptr != p ) == present, "binary_search finds a key exactly when it is present" );
    vf_check( inside, "binary_search returns an element of the range equal to the key" );
    for ( size_t i = 0U ; i < n ; ++i ) vf_eq_int( a[ i ], r[ i ], "binary_search does not change the array" );
}
ENTRY H_bsearch_1() { bsearch<1>( 0U, 0U, 3U ); }
ENTRY H_bsearch_2() { bsearch<2>( 0U, 1U, 7U ); }
ENTRY H_bsearch_3() { bsearch<3>( 0U, 2U, 7U ); }
ENTRY H_bsearch_4() { bsearch<4>( 0U, 3U, 7U ); }
ENTRY H_bsearch_5() { bsearch<5>( 0U, 4U, 7U ); }
ENTRY H_bsearch_part() { bsearch<6>( 1U, 4U, 7U ); bsearch<4>( 2U, 2U, 7U ); bsearch<4>( 1U, 3U, 7U ); }
ENTRY HT_bsearch_7() { bsearch<7>( 0U, 6U, 7U ); }

/* arrays longer than 256 elements */
static const size_t BIG = 300U;
static bool isSeven( const int x ) { return 7 == x; }
static bool isSevenr( const int& x ) { return 7 == x; }
static void bump( int& x ) { x += 1000; }
ENTRY H_sort_large()
{
    int a[ BIG ];
    for ( size_t i = 0U ; i < BIG ; ++i ) a[ i ] = static_cast<int>( ( i*7919U ) % BIG ) - 40;
    algorithm::sort( a );
    for ( size_t i = 0U ; i < BIG ; ++i ) vf_check( a[ i ] == static_cast<int>( i ) - 40, "a long array is ordered" );
    for ( size_t i = 0U ; i < BIG ; ++i ) a[ i ] = static_cast<int>( ( i*7919U ) % BIG );
    algorithm::sort( a, 260U, 290U, greater_int );
    for ( size_t i = 0U ; i < BIG ; ++i ) {
        if ( ( i >= 260U ) && ( i < 290U ) ) vf_check( a[ i ] > a[ i + 1U ], "the end of a long array is ordered" );
        if ( ( i < 260U ) || ( i > 290U ) ) vf_check( a[ i ] == static_cast<int>( ( i*7919U ) % BIG ), "elements outside the range are not touched" );
    }
}
ENTRY H_bsearch_large()
{
    int a[ BIG ];
    for ( size_t i = 0U ; i < BIG ; ++i ) a[ i ] = 2*static_cast<int>( i );
    for ( size_t i = 0U ; i < BIG ; i += 13U ) vf_check( algorithm::binary_search( a, 2*static_cast<int>( i ) ) == &a[ i ], "binary_search of a long array" );
    for ( size_t i = 250U ; i < BIG ; ++i ) vf_check( algorithm::binary_search( a, 2*static_cast<int>( i ) ) == &a[ i ], "binary_search of a long array" );
    for ( int k = -1 ; k < 601 ; k += 14 ) vf_check( algorithm::binary_search( a, k ) == nullptr, "binary_search of a long array" );
    vf_check( algorithm::binary_search( a, 590, 260U, 298U ) == &a[ 295 ], "binary_search of the end of a long array" );
    vf_check( algorithm::binary_search( a, 598, 260U, 298U ) == nullptr, "binary_search of the end of a long array" );
}
ENTRY H_scan_large()
{
    int a[ BIG ];
    for ( size_t i = 0U ; i < BIG ; ++i ) a[ i ] = 0;
    a[ 280 ] = 7;
    vf_check( algorithm::find( a, 7 ) == &a[ 280 ], "find in a long array" );
    vf_check( algorithm::find_if( a, isSeven ) == &a[ 280 ], "find_if in a long array" );
    vf_check( algorithm::find( a, 7, 281U ) == nullptr, "find in the end of a long array" );
    vf_check( algorithm::find( a, 7, 260U, 280U ) == &a[ 280 ], "find in the end of a long array" );
    vf_check( algorithm::any_of( a, isSeven ) && !algorithm::any_of( a, isSeven, 0U, 279U ) && !algorithm::all_of( a, isSeven ), "any_of in a long array" );
    vf_eq_int( algorithm::count_if( a, isSeven ), 1U, "count_if in a long array" );
    algorithm::replace( a, 7, 9 );
    for ( size_t i = 0U ; i < BIG ; ++i ) vf_check( a[ i ] == ( ( 280U == i ) ? 9 : 0 ), "replace in a long array" );
    algorithm::fill( a, 7, 1U, 298U );
    for ( size_t i = 0U ; i < BIG ; ++i ) vf_check( a[ i ] == ( ( ( 0U == i ) || ( 299U == i ) ) ? 0 : 7 ), "fill of a long array" );
    vf_eq_int( algorithm::count_if( a, isSeven ), 298U, "count_if in a long array" );
    vf_check( !algorithm::all_of( a, isSeven ) && algorithm::all_of( a, isSeven, 1U, 298U ), "all_of in a long array" );
    algorithm::replace_if( a, isSevenr, 4 );
    for ( size_t i = 0U ; i < BIG ; ++i ) vf_check( a[ i ] == ( ( ( 0U == i ) || ( 299U == i ) ) ? 0 : 4 ), "replace_if in a long array" );
    algorithm::for_each( a, bump );
    for ( size_t i = 0U ; i < BIG ; ++i ) vf_check( a[ i ] == ( ( ( 0U == i ) || ( 299U == i ) ) ? 1000 : 1004 ), "for_each in a long array" );
    algorithm::fill( a, 7 );
    vf_check( algorithm::all_of( a, isSeven ), "fill of a long array" );
    vf_eq_int( algorithm::count_if( a, isSeven ), 300U, "count_if in a long array" );
}
ENTRY H_reverse_large()
{
    int a[ BIG ];
    for ( size_t i = 0U ; i < BIG ; ++i ) a[ i ] = static_cast<int>( i );
    algorithm::reverse( a );
    for ( size_t i = 0U ; i < BIG ; ++i ) vf_check( a[ i ] == static_cast<int>( BIG - 1U - i ), "reverse of a long array" );
    algorithm::reverse( a, 250U, 290U );
    for ( size_t i = 250U ; i <= 290U ; ++i ) vf_check( a[ i ] == static_cast<int>( BIG - 1U - ( 540U - i ) ), "reverse of the end of a long array" );
}
ENTRY H_rotate_large()
{
    static const int ks[] = { 1, -1, 150, 257, -257, 299, 300, 301, -2000000000, 2000000001 };
    for ( size_t j = 0U ; j < 10U ; ++j ) {
        int a[ BIG ];
        for ( size_t i = 0U ; i < BIG ; ++i ) a[ i ] = static_cast<int>( i );
        algorithm::rotate( a, ks[ j ] );
        for ( int i = 0 ; i < 300 ; ++i ) vf_check( a[ ( ( ( i + static_cast<long long>( ks[ j ] ) ) % 300 ) + 300 ) % 300 ] == i, "rotate of a long array" );
    }
}
/* more than 65536 elements: positions beyond 16 bits */
static const size_t HUGE_N = 65600U;
static int (&longarray())[ HUGE_N ]
{
    int *p = static_cast<int*>( vf_buf( HUGE_N*sizeof(int), "long" ) );
    for ( size_t i = 0U ; i < HUGE_N ; ++i ) p[ i ] = 2*static_cast<int>( i );
    return *reinterpret_cast<int (*)[ HUGE_N ]>( p );
}
ENTRY H_bsearch_huge()
{
    int (&a)[ HUGE_N ] = longarray();
    static const size_t at[] = { 0U, 1U, 32766U, 32767U, 32768U, 32769U, 49000U, 65534U, 65535U, 65536U, 65537U, 65599U };
    for ( size_t k = 0U ; k < 12U ; ++k ) {
        vf_check( algorithm::binary_search( a, 2*static_cast<int>( at[ k ] ) ) == &a[ at[ k ] ], "binary_search of a very long array" );
        vf_check( algorithm::binary_search( a, 2*static_cast<int>( at[ k ] ) + 1 ) == nullptr, "binary_search of a very long array" );
    }
    vf_check( algorithm::binary_search( a, -1 ) == nullptr, "binary_search of a very long array" );
    vf_check( algorithm::binary_search( a, 131190, 65500U, 65599U ) == &a[ 65595 ], "binary_search of the end of a very long array" );
}
ENTRY H_scan_huge()
{
    int (&a)[ HUGE_N ] = longarray();
    vf_check( algorithm::find( a, 131100, 65500U, 65599U ) == &a[ 65550 ], "find in the end of a very long array" );
    vf_check( algorithm::find( a, 131100 ) == &a[ 65550 ], "find in a very long array" );
    algorithm::replace( a, 131100, 7, 65500U );
    vf_check( ( 7 == a[ 65550 ] ) && ( 131102 == a[ 65551 ] ) && ( 28 == a[ 14 ] ), "replace in the end of a very long array" );
    vf_check( algorithm::find_if( a, isSeven, 65500U, 65599U ) == &a[ 65550 ], "find_if in the end of a very long array" );
    vf_check( algorithm::any_of( a, isSeven, 65540U ) && !algorithm::any_of( a, isSeven, 65551U ), "any_of in the end of a very long array" );
    vf_eq_int( algorithm::count_if( a, isSeven, 65537U ), 1U, "count_if in the end of a very long array" );
    algorithm::fill( a, 7, 65537U, 65540U );
    vf_check( ( 131072 == a[ 65536 ] ) && ( 7 == a[ 65537 ] ) && ( 7 == a[ 65540 ] ) && ( 131082 == a[ 65541 ] ) && ( 2 == a[ 1 ] ) && ( 8 == a[ 4 ] ), "fill in the end of a very long array" );
    vf_check( algorithm::all_of( a, isSeven, 65537U, 65540U ) && !algorithm::all_of( a, isSeven, 65537U, 65541U ), "all_of in the end of a very long array" );
    algorithm::for_each( a, bump, 65590U );
    vf_check( ( 131178 == a[ 65589 ] ) && ( 132180 == a[ 65590 ] ) && ( 132198 == a[ 65599 ] ) && ( 108 == a[ 54 ] ), "for_each in the end of a very long array" );
}
ENTRY H_reverse_huge()
{
    int (&a)[ HUGE_N ] = longarray();
    algorithm::reverse( a, 65530U, 65541U );
    for ( size_t i = 65528U ; i < 65544U ; ++i ) vf_check( a[ i ] == 2*static_cast<int>( ( ( i < 65530U ) || ( i > 65541U ) ) ? i : ( 131071U - i ) ), "reverse of the end of a very long array" );
    vf_check( ( 0 == a[ 0 ] ) && ( 10 == a[ 5 ] ), "reverse of the end of a very long array" );
}
ENTRY H_sort_huge()
{
    int (&a)[ HUGE_N ] = longarray();
    algorithm::sort( a, 65520U, 65560U, greater_int );
    for ( size_t i = 65518U ; i < 65563U ; ++i ) vf_check( a[ i ] == 2*static_cast<int>( ( ( i < 65520U ) || ( i > 65560U ) ) ? i : ( 131080U - i ) ), "sort of the end of a very long array" );
    vf_check( ( 0 == a[ 0 ] ) && ( 20 == a[ 10 ] ), "sort of the end of a very long array" );
}
