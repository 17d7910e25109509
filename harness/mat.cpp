#include "vf.hpp"
#include <iostream>
#include <include/mat.hpp>
using namespace qlibs;

template <size_t R, size_t C>
static void load( mat<R,C>& a, float (&r)[ R ][ C ] )
{
    for ( size_t i = 0U ; i < R ; ++i ) for ( size_t j = 0U ; j < C ; ++j ) {
        r[ i ][ j ] = vf_real( "e" );
        a[ i ][ j ] = r[ i ][ j ];
    }
}
#define EACH( expr, what ) for ( size_t i = 0U ; i < R ; ++i ) for ( size_t j = 0U ; j < C ; ++j ) vf_eq( x[ i ][ j ], ( expr ), what )
#define KEPT( what ) for ( size_t i = 0U ; i < R ; ++i ) for ( size_t j = 0U ; j < C ; ++j ) { vf_eq( a[ i ][ j ], p[ i ][ j ], what ); vf_eq( b[ i ][ j ], q[ i ][ j ], what ); }

template <size_t R, size_t C>
static void elementwise()
{
    mat<R,C> a, b;
    float p[ R ][ C ], q[ R ][ C ];
    for ( size_t i = 0U ; i < R ; ++i ) for ( size_t j = 0U ; j < C ; ++j ) vf_eq( a[ i ][ j ], 0.0f, "a new matrix is null" );
    load( a, p );
    load( b, q );
    const float s = vf_real( "s" ), d = vf_real( "d" );
    vf_assume( d != 0.0f );
    { mat<R,C> x = a + b; EACH( p[ i ][ j ] + q[ i ][ j ], "sum" ); }
    { mat<R,C> x = a - b; EACH( p[ i ][ j ] - q[ i ][ j ], "difference" ); }
    { mat<R,C> x = -a; EACH( -p[ i ][ j ], "negation" ); }
    { mat<R,C> x = a*s; EACH( p[ i ][ j ]*s, "matrix by scalar" ); }
    { mat<R,C> x = s*a; EACH( p[ i ][ j ]*s, "scalar by matrix" ); }
    { mat<R,C> x = a/d; EACH( p[ i ][ j ]/d, "matrix over scalar" ); }
    { mat<R,C> x = a + s; EACH( p[ i ][ j ] + s, "matrix plus scalar" ); }
    { mat<R,C> x = s + a; EACH( p[ i ][ j ] + s, "scalar plus matrix" ); }
    { mat<R,C> x = a - s; EACH( p[ i ][ j ] - s, "matrix minus scalar" ); }
    { mat<R,C> x = s - a; EACH( s - p[ i ][ j ], "scalar minus matrix" ); }
    KEPT( "operands are not modified" );
    { mat<R,C> x( a ); EACH( p[ i ][ j ], "copy construction" ); x[ 0 ][ 0 ] = s; KEPT( "a copy is independent" ); }
    { mat<R,C> x; mat<R,C>& y = ( x = a ); EACH( p[ i ][ j ], "assignment" ); vf_check( &y == &x, "assignment returns its object" );
      x = x; EACH( p[ i ][ j ], "self-assignment" ); }
    { mat<R,C> x( a ); mat<R,C>& y = ( x += b ); EACH( p[ i ][ j ] + q[ i ][ j ], "+= matrix" ); vf_check( &y == &x, "+= returns its object" ); }
    { mat<R,C> x( a ); mat<R,C>& y = ( x -= b ); EACH( p[ i ][ j ] - q[ i ][ j ], "-= matrix" ); vf_check( &y == &x, "-= returns its object" ); }
    { mat<R,C> x( a ); x += x; EACH( 2.0f*p[ i ][ j ], "+= itself" ); x -= x; EACH( 0.0f, "-= itself" ); }
    { mat<R,C> x( a ); mat<R,C>& y = ( x += s ); EACH( p[ i ][ j ] + s, "+= scalar" ); vf_check( &y == &x, "+= returns its object" ); }
    { mat<R,C> x( a ); mat<R,C>& y = ( x -= s ); EACH( p[ i ][ j ] - s, "-= scalar" ); vf_check( &y == &x, "-= returns its object" ); }
    { mat<R,C> x( a ); mat<R,C>& y = ( x *= s ); EACH( p[ i ][ j ]*s, "*= scalar" ); vf_check( &y == &x, "*= returns its object" ); }
    { mat<R,C> x( a ); mat<R,C>& y = ( x /= d ); EACH( p[ i ][ j ]/d, "/= scalar" ); vf_check( &y == &x, "/= returns its object" ); }
    { mat<R,C> x( a ); mat<R,C>& y = ++x; EACH( p[ i ][ j ] + 1.0f, "pre-increment" ); vf_check( &y == &x, "pre-increment returns its object" ); }
    { mat<R,C> x( a ); mat<R,C>& y = --x; EACH( p[ i ][ j ] - 1.0f, "pre-decrement" ); vf_check( &y == &x, "pre-decrement returns its object" ); }
    { mat<R,C> y( a ); mat<R,C> x = y++; EACH( p[ i ][ j ], "post-increment returns the old value" ); x = y; EACH( p[ i ][ j ] + 1.0f, "post-increment" ); }
    { mat<R,C> y( a ); mat<R,C> x = y--; EACH( p[ i ][ j ], "post-decrement returns the old value" ); x = y; EACH( p[ i ][ j ] - 1.0f, "post-decrement" ); }
    KEPT( "operands are not modified" );
    for ( size_t u = 0U ; u < R*C ; ++u ) {       /* the scalar may be an element of the matrix */
        { mat<R,C> x( a ); x += x( u ); EACH( p[ i ][ j ] + p[ u/C ][ u%C ], "+= own element" ); }
        { mat<R,C> x( a ); x -= x( u ); EACH( p[ i ][ j ] - p[ u/C ][ u%C ], "-= own element" ); }
        { mat<R,C> x( a ); x *= x( u ); EACH( p[ i ][ j ]*p[ u/C ][ u%C ], "*= own element" ); }
        const mat<R,C> k( a );
        vf_eq( k( u ), p[ u/C ][ u%C ], "linear read access is row by row" );
        vf_eq( k[ u/C ][ u%C ], p[ u/C ][ u%C ], "row access" );
        mat<R,C> x( a );
        vf_eq( x( u ), p[ u/C ][ u%C ], "linear access is row by row" );
        vf_eq( x( u/C, u%C ), p[ u/C ][ u%C ], "two-index access" );
        x( u/C, u%C ) = s;
        EACH( ( i*C + j == u ) ? s : p[ i ][ j ], "writing one element changes only that element" );
        x( u ) = d;
        EACH( ( i*C + j == u ) ? d : p[ i ][ j ], "writing one element changes only that element" );
    }
    mat<C,R> t = !a;
    for ( size_t i = 0U ; i < R ; ++i ) for ( size_t j = 0U ; j < C ; ++j ) vf_eq( t[ j ][ i ], p[ i ][ j ], "transpose" );
    mat<R,C> x = !t;
    EACH( p[ i ][ j ], "transpose twice" );
    KEPT( "operands are not modified" );
}
ENTRY H_mat_elem_11() { elementwise<1,1>(); }
ENTRY H_mat_elem_13() { elementwise<1,3>(); }
ENTRY H_mat_elem_22() { elementwise<2,2>(); }
ENTRY H_mat_elem_23() { elementwise<2,3>(); }
ENTRY H_mat_elem_32() { elementwise<3,2>(); }
ENTRY H_mat_elem_41() { elementwise<4,1>(); }
ENTRY H_mat_elem_44() { elementwise<4,4>(); }

template <size_t R, size_t K, size_t C>
static void product()
{
    mat<R,K> a;
    mat<K,C> b;
    float p[ R ][ K ], q[ K ][ C ];
    load( a, p );
    load( b, q );
    mat<R,C> x = a*b;
    for ( size_t i = 0U ; i < R ; ++i ) for ( size_t j = 0U ; j < C ; ++j ) {
        float s = 0.0f;
        for ( size_t k = 0U ; k < K ; ++k ) s += p[ i ][ k ]*q[ k ][ j ];
        vf_eq( x[ i ][ j ], s, "matrix product" );
    }
    for ( size_t i = 0U ; i < R ; ++i ) for ( size_t k = 0U ; k < K ; ++k ) vf_eq( a[ i ][ k ], p[ i ][ k ], "operands are not modified" );
    for ( size_t k = 0U ; k < K ; ++k ) for ( size_t j = 0U ; j < C ; ++j ) vf_eq( b[ k ][ j ], q[ k ][ j ], "operands are not modified" );
}
ENTRY H_mat_mul()
{
    product<1,1,1>(); product<1,3,1>(); product<3,1,3>(); product<2,2,2>(); product<2,3,4>(); product<3,2,1>(); product<1,2,3>(); product<3,3,3>();
}
ENTRY H_mat_mul_big() { product<4,4,4>(); product<5,2,3>(); product<2,6,2>(); }
template <size_t N>
static void compound_product()
{
    mat<N,N> a, b;
    float p[ N ][ N ], q[ N ][ N ];
    load( a, p );
    load( b, q );
    mat<N,N> x( a ), z( a );
    mat<N,N>& y = ( x *= b );
    vf_check( &y == &x, "*= returns its object" );
    z *= z;
    for ( size_t i = 0U ; i < N ; ++i ) for ( size_t j = 0U ; j < N ; ++j ) {
        float s = 0.0f, t = 0.0f;
        for ( size_t k = 0U ; k < N ; ++k ) { s += p[ i ][ k ]*q[ k ][ j ]; t += p[ i ][ k ]*p[ k ][ j ]; }
        vf_eq( x[ i ][ j ], s, "compound matrix product" );
        vf_eq( z[ i ][ j ], t, "compound product with itself" );
        vf_eq( b[ i ][ j ], q[ i ][ j ], "the right operand is not modified" );
    }
}
ENTRY H_mat_muleq() { compound_product<1>(); compound_product<2>(); compound_product<3>(); }

ENTRY H_mat_build()
{
    const float a = vf_real( "a" ), b = vf_real( "b" ), c = vf_real( "c" ), d = vf_real( "d" ), e = vf_real( "e" ), f = vf_real( "f" ), v = vf_real( "v" );
    mat<2,3> x( a, b, c, d, e, f );
    vf_eq( x[ 0 ][ 0 ], a, "element list fills row by row" ); vf_eq( x[ 0 ][ 1 ], b, "element list fills row by row" ); vf_eq( x[ 0 ][ 2 ], c, "element list fills row by row" );
    vf_eq( x[ 1 ][ 0 ], d, "element list fills row by row" ); vf_eq( x[ 1 ][ 1 ], e, "element list fills row by row" ); vf_eq( x[ 1 ][ 2 ], f, "element list fills row by row" );
    mat<3,2> y( a, b, c, d, e, f );
    vf_eq( y[ 0 ][ 1 ], b, "element list fills row by row" ); vf_eq( y[ 1 ][ 0 ], c, "element list fills row by row" ); vf_eq( y[ 2 ][ 0 ], e, "element list fills row by row" );
    vf_eq( y[ 2 ][ 1 ], f, "element list fills row by row" ); vf_eq( y[ 1 ][ 1 ], d, "element list fills row by row" ); vf_eq( y[ 0 ][ 0 ], a, "element list fills row by row" );
    const mat<3,3> id( MAT_IDENTITY ), sc( MAT_IDENTITY, v ), all( MAT_ALL ), av( MAT_ALL, v ), z( MAT_ZERO ), zv( MAT_ZERO, v ), mg( MAT_MAGIC );
    for ( size_t i = 0U ; i < 3U ; ++i ) for ( size_t j = 0U ; j < 3U ; ++j ) {
        vf_eq( id[ i ][ j ], ( i == j ) ? 1.0f : 0.0f, "identity" );
        vf_eq( sc[ i ][ j ], ( i == j ) ? v : 0.0f, "scaled identity" );
        vf_eq( all[ i ][ j ], 1.0f, "all ones" );
        vf_eq( av[ i ][ j ], v, "all equal" );
        vf_eq( z[ i ][ j ], 0.0f, "zero" );
        vf_eq( zv[ i ][ j ], 0.0f, "zero" );
        vf_check( mg[ i ][ j ] == mg[ i ][ j ], "every kind of matrix is initialised" );
    }
    const mat<1,1> o( MAT_IDENTITY, v );
    vf_eq( o[ 0 ][ 0 ], v, "scaled identity" );
}

template <size_t R, size_t C>
static void norm()
{
    mat<R,C> a;
    float p[ R ][ C ];
    load( a, p );
    const float got = a.normInf();
    float best = 0.0f;
    for ( size_t i = 0U ; i < R ; ++i ) {
        float s = 0.0f;
        for ( size_t j = 0U ; j < C ; ++j ) s += ( p[ i ][ j ] < 0.0f ) ? -p[ i ][ j ] : p[ i ][ j ];
        best = ( s > best ) ? s : best;
    }
    vf_eq( got, best, "the infinity norm is the largest absolute row sum" );
}
ENTRY H_mat_norm_11() { norm<1,1>(); }
ENTRY H_mat_norm_12() { norm<1,2>(); }
ENTRY H_mat_norm_21() { norm<2,1>(); }
ENTRY H_mat_norm_22() { norm<2,2>(); }
ENTRY H_mat_norm_31() { norm<3,1>(); }
ENTRY H_mat_norm_13() { norm<1,3>(); }
/* shapes with a known sign pattern */
template <size_t R, size_t C>
static void norm_signed( const unsigned signs, const size_t top )
{
    mat<R,C> a;
    float p[ R ][ C ], want = 0.0f;
    for ( size_t i = 0U ; i < R ; ++i ) {
        float s = 0.0f;
        for ( size_t j = 0U ; j < C ; ++j ) {
            p[ i ][ j ] = vf_real( "e" );
            vf_assume( p[ i ][ j ] > 0.0f );
            vf_assume( ( i == top ) ? ( p[ i ][ j ] > 2.0f ) : ( p[ i ][ j ] < 1.0f ) );
            s += p[ i ][ j ];
            a[ i ][ j ] = ( ( signs >> ( i*C + j ) ) & 1U ) ? -p[ i ][ j ] : p[ i ][ j ];
        }
        if ( i == top ) want = s;
    }
    vf_eq( a.normInf(), want, "the infinity norm is the largest absolute row sum" );
}
ENTRY H_mat_norm_signed()
{
    norm_signed<2,3>( 0x15U, 0U ); norm_signed<2,3>( 0x2AU, 1U ); norm_signed<3,2>( 0x0U, 2U ); norm_signed<3,2>( 0x3FU, 1U ); norm_signed<3,2>( 0x2DU, 0U );
    norm_signed<3,3>( 0x1B6U, 2U ); norm_signed<1,4>( 0xAU, 0U ); norm_signed<4,1>( 0x5U, 3U ); norm_signed<4,1>( 0x5U, 0U );
}

template <size_t N>
static void inverse_is( const mat<N,N>& a, const float (&p)[ N ][ N ] )
{
    const mat<N,N> x = a.inv();
    for ( size_t i = 0U ; i < N ; ++i ) for ( size_t j = 0U ; j < N ; ++j ) {
        float s = 0.0f, t = 0.0f;
        for ( size_t k = 0U ; k < N ; ++k ) { s += p[ i ][ k ]*x[ k ][ j ]; t += x[ i ][ k ]*p[ k ][ j ]; }
        vf_eq( s, ( i == j ) ? 1.0f : 0.0f, "the matrix times its inverse is the identity" );
        vf_eq( t, ( i == j ) ? 1.0f : 0.0f, "the inverse times the matrix is the identity" );
        vf_eq( a[ i ][ j ], p[ i ][ j ], "the matrix is not modified" );
    }
}
ENTRY H_mat_inv_1()
{
    mat<1,1> a; float p[ 1 ][ 1 ];
    load( a, p );
    vf_assume( p[ 0 ][ 0 ] != 0.0f );
    inverse_is<1>( a, p );
}
ENTRY H_mat_inv_2()
{
    mat<2,2> a; float p[ 2 ][ 2 ];
    load( a, p );
    vf_assume( p[ 0 ][ 0 ]*p[ 1 ][ 1 ] - p[ 0 ][ 1 ]*p[ 1 ][ 0 ] != 0.0f );
    vf_assume( p[ 0 ][ 0 ] != 0.0f );
    inverse_is<2>( a, p );
}
ENTRY H_mat_inv_2x()
{
    mat<2,2> a; float p[ 2 ][ 2 ];
    load( a, p );
    a[ 0 ][ 0 ] = p[ 0 ][ 0 ] = 0.0f;
    vf_assume( p[ 0 ][ 1 ] != 0.0f );
    vf_assume( p[ 1 ][ 0 ] != 0.0f );
    inverse_is<2>( a, p );
}
ENTRY H_mat_inv_3()
{
    mat<3,3> a; float p[ 3 ][ 3 ];
    load( a, p );
    vf_assume( p[ 0 ][ 0 ] != 0.0f );
    vf_assume( p[ 0 ][ 0 ]*p[ 1 ][ 1 ] - p[ 0 ][ 1 ]*p[ 1 ][ 0 ] != 0.0f );
    vf_assume( p[ 0 ][ 0 ]*( p[ 1 ][ 1 ]*p[ 2 ][ 2 ] - p[ 1 ][ 2 ]*p[ 2 ][ 1 ] ) - p[ 0 ][ 1 ]*( p[ 1 ][ 0 ]*p[ 2 ][ 2 ] - p[ 1 ][ 2 ]*p[ 2 ][ 0 ] ) +
               p[ 0 ][ 2 ]*( p[ 1 ][ 0 ]*p[ 2 ][ 1 ] - p[ 1 ][ 1 ]*p[ 2 ][ 0 ] ) != 0.0f );
    inverse_is<3>( a, p );
}
/* zero pivots at several places and depths; the remaining entries are arbitrary */
template <size_t N>
static void inverse_perm( const size_t (&to)[ N ] )
{
    mat<N,N> a; float p[ N ][ N ];
    for ( size_t i = 0U ; i < N ; ++i ) for ( size_t j = 0U ; j < N ; ++j ) {
        p[ i ][ j ] = 0.0f;
        if ( to[ i ] == j ) {
            p[ i ][ j ] = vf_real( "e" );
            vf_assume( p[ i ][ j ] != 0.0f );
        }
        a[ i ][ j ] = p[ i ][ j ];
    }
    inverse_is<N>( a, p );
}
ENTRY H_mat_inv_perm()
{
    { const size_t t[] = { 1U, 2U, 0U }; inverse_perm<3>( t ); }
    { const size_t t[] = { 2U, 0U, 1U }; inverse_perm<3>( t ); }
    { const size_t t[] = { 0U, 2U, 1U }; inverse_perm<3>( t ); }
    { const size_t t[] = { 2U, 1U, 0U }; inverse_perm<3>( t ); }
    { const size_t t[] = { 1U, 0U, 2U }; inverse_perm<3>( t ); }
    { const size_t t[] = { 3U, 2U, 1U, 0U }; inverse_perm<4>( t ); }
    { const size_t t[] = { 1U, 2U, 3U, 0U }; inverse_perm<4>( t ); }
    { const size_t t[] = { 3U, 0U, 1U, 2U }; inverse_perm<4>( t ); }
}
ENTRY H_mat_inv_dense()
{
    { const float p[ 3 ][ 3 ] = { { 1.0f, 2.0f, 3.0f }, { 2.0f, 4.0f, 5.0f }, { 1.0f, 0.0f, 1.0f } }; mat<3,3> a( 1, 2, 3, 2, 4, 5, 1, 0, 1 ); inverse_is<3>( a, p ); }
    { const float p[ 4 ][ 4 ] = { { 0.0f, 2.0f, 0.0f, 1.0f }, { 2.0f, 4.0f, 1.0f, 0.0f }, { 2.0f, 4.0f, 3.0f, 1.0f }, { 4.0f, 1.0f, 1.0f, 1.0f } };
      mat<4,4> a( 0, 2, 0, 1, 2, 4, 1, 0, 2, 4, 3, 1, 4, 1, 1, 1 ); inverse_is<4>( a, p ); }
}
/* unit lower times unit upper: every leading minor is one */
template <size_t N>
static void inverse_lu()
{
    mat<N,N> a; float l[ N ][ N ], u[ N ][ N ], p[ N ][ N ];
    for ( size_t i = 0U ; i < N ; ++i ) for ( size_t j = 0U ; j < N ; ++j ) {
        l[ i ][ j ] = ( i == j ) ? 1.0f : ( ( i > j ) ? vf_real( "l" ) : 0.0f );
        u[ i ][ j ] = ( i == j ) ? 2.0f : ( ( i < j ) ? vf_real( "u" ) : 0.0f );
    }
    for ( size_t i = 0U ; i < N ; ++i ) for ( size_t j = 0U ; j < N ; ++j ) {
        float s = 0.0f;
        for ( size_t k = 0U ; k < N ; ++k ) s += l[ i ][ k ]*u[ k ][ j ];
        a[ i ][ j ] = p[ i ][ j ] = s;
    }
    inverse_is<N>( a, p );
}
ENTRY H_mat_inv_lu() { inverse_lu<2>(); inverse_lu<3>(); }
ENTRY H_mat_inv_lu4() { inverse_lu<4>(); }
ENTRY H_mat_elem_55() { elementwise<5,5>(); }
ENTRY H_mat_elem_27() { elementwise<2,7>(); }
ENTRY H_mat_elem_91() { elementwise<9,1>(); }
ENTRY H_mat_mul_bigger() { product<7,9,5>(); product<1,11,1>(); product<8,1,8>(); product<5,5,5>(); compound_product<4>(); compound_product<5>(); }
/* more than 256 elements */
ENTRY H_mat_mul_large()
{
    mat<17,17> a, id( MAT_IDENTITY );
    for ( size_t i = 0U ; i < 17U ; ++i ) for ( size_t j = 0U ; j < 17U ; ++j ) {
        a[ i ][ j ] = static_cast<float>( 17U*i + j );
        vf_eq( id[ i ][ j ], ( i == j ) ? 1.0f : 0.0f, "identity of a large matrix" );
    }
    const mat<17,17> x = a*id, y = a + id, t = !a;
    mat<17,17> z( a );
    z -= a;
    for ( size_t i = 0U ; i < 17U ; ++i ) for ( size_t j = 0U ; j < 17U ; ++j ) {
        const float e = static_cast<float>( 17U*i + j );
        vf_eq( x[ i ][ j ], e, "product of large matrices" );
        vf_eq( y[ i ][ j ], e + ( ( i == j ) ? 1.0f : 0.0f ), "sum of large matrices" );
        vf_eq( a( 17U*i + j ), e, "linear access to a large matrix" );
        vf_eq( z[ i ][ j ], 0.0f, "difference of large matrices" );
        vf_eq( t[ j ][ i ], e, "transpose of a large matrix" );
    }
}
template <size_t N>
static void inverse_numbers( const unsigned seed )
{
    mat<N,N> a; float p[ N ][ N ];
    unsigned s = seed;
    for ( size_t i = 0U ; i < N ; ++i ) for ( size_t j = 0U ; j < N ; ++j ) {
        s = s*1103515245U + 12345U;
        const int v = static_cast<int>( ( s >> 16U ) % 7U ) - 3;
        a[ i ][ j ] = p[ i ][ j ] = static_cast<float>( ( ( i + 1U ) % N == j ) ? ( v + 11 ) : v );
    }
    a[ 0 ][ 0 ] = p[ 0 ][ 0 ] = 0.0f;
    inverse_is<N>( a, p );
}
ENTRY H_mat_inv_numbers() { inverse_numbers<4>( 1U ); inverse_numbers<5>( 2U ); inverse_numbers<6>( 3U ); inverse_numbers<7>( 4U ); inverse_numbers<9>( 5U ); }
ENTRY H_mat_inv_perm_big()
{
    { const size_t t[] = { 1U, 2U, 3U, 4U, 0U }; inverse_perm<5>( t ); }
    { const size_t t[] = { 4U, 3U, 2U, 1U, 0U }; inverse_perm<5>( t ); }
    { const size_t t[] = { 2U, 0U, 4U, 1U, 3U }; inverse_perm<5>( t ); }
    { const size_t t[] = { 5U, 0U, 3U, 1U, 4U, 2U }; inverse_perm<6>( t ); }
    { const size_t t[] = { 0U, 1U, 2U, 3U, 5U, 4U }; inverse_perm<6>( t ); }
}
/* entries of very different size */
ENTRY H_mat_inv_scaled()
{
    { const float p[ 2 ][ 2 ] = { { 1e-20f, 0.0f }, { 0.0f, 1e20f } }; mat<2,2> a( 1e-20f, 0.0f, 0.0f, 1e20f ); inverse_is<2>( a, p ); }
    { const float p[ 3 ][ 3 ] = { { 1e-12f, 1.0f, 0.0f }, { 1.0f, 1e-12f, 2.0f }, { 0.0f, 3.0f, 1e-9f } }; mat<3,3> a( 1e-12f, 1.0f, 0.0f, 1.0f, 1e-12f, 2.0f, 0.0f, 3.0f, 1e-9f ); inverse_is<3>( a, p ); }
    { const float p[ 3 ][ 3 ] = { { 1e-30f, 0.0f, 0.0f }, { 0.0f, 0.0f, 1e-30f }, { 0.0f, 1e-25f, 0.0f } }; mat<3,3> a( 1e-30f, 0.0f, 0.0f, 0.0f, 0.0f, 1e-30f, 0.0f, 1e-25f, 0.0f ); inverse_is<3>( a, p ); }
}
/* every shape up to 7 by 7 */
template <size_t R, size_t C>
static void shape()
{
    mat<R,C> a;
    for ( size_t i = 0U ; i < R ; ++i ) for ( size_t j = 0U ; j < C ; ++j ) a[ i ][ j ] = static_cast<float>( 10U*i + j + 1U );
    mat<C,R> t = !a;
    const mat<R,R> g = a*t;
    for ( size_t i = 0U ; i < R ; ++i ) {
        for ( size_t j = 0U ; j < C ; ++j ) {
            const float e = static_cast<float>( 10U*i + j + 1U );
            vf_eq( t[ j ][ i ], e, "transpose of every shape" );
            vf_eq( t( j, i ), e, "transpose of every shape" );
            vf_eq( a( i, j ), e, "access of every shape" );
            vf_eq( a( C*i + j ), e, "linear access of every shape" );
        }
        for ( size_t j = 0U ; j < R ; ++j ) {
            unsigned s = 0U;
            for ( size_t k = 0U ; k < C ; ++k ) s += static_cast<unsigned>( ( 10U*i + k + 1U )*( 10U*j + k + 1U ) );
            vf_eq( g[ i ][ j ], static_cast<float>( s ), "product of every shape" );
        }
    }
    const mat<R,C> s = a + a, d = s - a, m = 3.0f*a, q = s/2.0f;
    for ( size_t i = 0U ; i < R ; ++i ) for ( size_t j = 0U ; j < C ; ++j ) {
        const float e = static_cast<float>( 10U*i + j + 1U );
        vf_eq( s[ i ][ j ], 2.0f*e, "sum of every shape" );
        vf_eq( d[ i ][ j ], e, "difference of every shape" );
        vf_eq( m[ i ][ j ], 3.0f*e, "multiple of every shape" );
        vf_eq( q[ i ][ j ], e, "quotient of every shape" );
    }
}
template <size_t R>
static void shapes() { shape<R,1>(); shape<R,2>(); shape<R,3>(); shape<R,4>(); shape<R,5>(); shape<R,6>(); shape<R,7>(); }
ENTRY H_mat_elem_shapes_a() { shapes<1>(); shapes<2>(); shapes<3>(); }
ENTRY H_mat_elem_shapes_b() { shapes<4>(); shapes<5>(); }
ENTRY H_mat_elem_shapes_c() { shapes<6>(); shapes<7>(); }
