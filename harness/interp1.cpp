#include "vf.hpp"
#include <include/interp1.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;

/* strictly increasing abscissae, arbitrary ordinates */
static void table( real_t *tx, real_t *ty, size_t n )
{
    for ( size_t i = 0U ; i < n ; ++i ) {
        tx[ i ] = vf_real( "tx" );
        ty[ i ] = vf_real( "ty" );
        if ( i > 0U ) vf_assume( tx[ i ] > tx[ i - 1U ] );
    }
}
/* index of the interval [tx[k],tx[k+1]] to be used for x, the outer ones extend to infinity */
static size_t interval( const real_t x, const real_t *tx, size_t n )
{
    size_t k = 0U;
    for ( size_t i = 1U ; i + 1U < n ; ++i ) {
        if ( x >= tx[ i ] ) k = i;
    }
    return k;
}
static real_t chord( const real_t x, const real_t *tx, const real_t *ty, size_t k )
{
    return ( ty[ k ]*( tx[ k + 1U ] - x ) + ty[ k + 1U ]*( x - tx[ k ] ) )/( tx[ k + 1U ] - tx[ k ] );
}

ENTRY H_i1_previous()
{
    for ( size_t n = 2U ; n <= 5U ; ++n ) {
        real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
        table( tx, ty, n );
        interp1 p( tx, ty, n );
        vf_check( p.setMethod( INTERP1_PREVIOUS ), "method accepted" );
        const real_t x = vf_real( "x" );
        real_t want = ty[ 0 ];
        for ( size_t i = 1U ; i < n ; ++i ) if ( tx[ i ] <= x ) want = ty[ i ];
        vf_eq( p.get( x ), want, "previous: value at the last node not above x (first node when x is below the table)" );
    }
}
ENTRY H_i1_next()
{
    for ( size_t n = 2U ; n <= 5U ; ++n ) {
        real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
        table( tx, ty, n );
        interp1 p( tx, ty, n );
        vf_check( p.setMethod( INTERP1_NEXT ), "method accepted" );
        const real_t x = vf_real( "x" );
        const real_t y = p.get( x );
        if ( x >= tx[ 0 ] ) {
            real_t want = ty[ n - 1U ];
            for ( size_t i = n ; i-- > 1U ; ) if ( x < tx[ i ] ) want = ty[ i ];
            vf_eq( y, want, "next: value at the first node above x (last node when x is not below it)" );
        }
        else {
            vf_check( ( y == ty[ 0 ] ) || ( y == ty[ 1 ] ), "next: a leading node when x is below the table" );
        }
    }
}
ENTRY H_i1_nearest()
{
    for ( size_t n = 2U ; n <= 4U ; ++n ) {
        real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
        table( tx, ty, n );
        interp1 p( tx, ty, n );
        vf_check( p.setMethod( INTERP1_NEAREST ), "method accepted" );
        const real_t x = vf_real( "x" );
        const real_t y = p.get( x );
        size_t k = 0U;
        for ( size_t i = 0U ; i + 1U < n ; ++i ) {
            const real_t twice = 2.0F*x, sum = tx[ i ] + tx[ i + 1U ];
            if ( twice >= sum ) k = i + 1U;
        }
        vf_eq( y, ty[ k ], "nearest: value at the node with the smallest distance, the later of two equally distant ones" );
    }
}
ENTRY H_i1_linear()
{
    for ( size_t n = 2U ; n <= 5U ; ++n ) {
        real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
        table( tx, ty, n );
        interp1 p( tx, ty, n ), q( tx, ty, n );
        vf_check( p.setMethod( INTERP1_LINEAR ), "method accepted" );
        const real_t x = vf_real( "x" );
        const real_t want = chord( x, tx, ty, interval( x, tx, n ) );
        vf_eq( p.get( x ), want, "linear: chord of the interval that contains x, outer chords extended" );
        vf_eq( q.get( x ), want, "linear is the default method" );
    }
}
ENTRY H_i1_sine()
{
    for ( size_t n = 2U ; n <= 4U ; ++n ) {
        real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
        table( tx, ty, n );
        interp1 p( tx, ty, n );
        vf_check( p.setMethod( INTERP1_SINE ), "method accepted" );
        for ( size_t k = 0U ; k + 1U < n ; ++k ) {
            const real_t x = vf_real( "x" );
            vf_assume( ( x > tx[ k ] ) && ( x < tx[ k + 1U ] ) );
            const real_t c = ffmath::cos( ffmath::FFP_PI*( x - tx[ k ] )/( tx[ k + 1U ] - tx[ k ] ) );
            vf_eq( p.get( x ), 0.5F*( ty[ k ] + ty[ k + 1U ] ) + 0.5F*c*( ty[ k ] - ty[ k + 1U ] ),
                   "sine: raised-cosine blend of the enclosing nodes" );
        }
        const real_t lo = vf_real( "lo" );
        vf_assume( lo < tx[ 0 ] );
        const real_t cl = ffmath::cos( ffmath::FFP_PI*( lo - tx[ 0 ] )/( tx[ 1 ] - tx[ 0 ] ) );
        vf_eq( p.get( lo ), 0.5F*( ty[ 0 ] + ty[ 1 ] ) + 0.5F*cl*( ty[ 0 ] - ty[ 1 ] ), "sine: extended below the table" );
        const real_t hi = vf_real( "hi" );
        vf_assume( hi > tx[ n - 1U ] );
        const real_t ch = ffmath::cos( ffmath::FFP_PI*( hi - tx[ n - 1U ] )/( tx[ n - 2U ] - tx[ n - 1U ] ) );
        vf_eq( p.get( hi ), 0.5F*( ty[ n - 1U ] + ty[ n - 2U ] ) + 0.5F*ch*( ty[ n - 1U ] - ty[ n - 2U ] ), "sine: extended above the table" );
    }
}
static real_t cub( real_t t, real_t h, real_t y0, real_t m0, real_t y1, real_t m1 )
{
    /* cubic Hermite basis in Horner form */
    return y0 + t*( h*m0 + t*( 3.0F*( y1 - y0 ) - h*( 2.0F*m0 + m1 ) + t*( 2.0F*( y0 - y1 ) + h*( m0 + m1 ) ) ) );
}
ENTRY H_i1_cubic()
{
    for ( size_t n = 4U ; n <= 5U ; ++n ) {
        real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
        table( tx, ty, n );
        interp1 p( tx, ty, n );
        vf_check( p.setMethod( INTERP1_CUBIC ), "method accepted" );
        for ( size_t k = 0U ; k + 1U < n ; ++k ) {
            const real_t x = vf_real( "x" );
            vf_assume( ( x > tx[ k ] ) && ( x < tx[ k + 1U ] ) );
            const real_t h = tx[ k + 1U ] - tx[ k ];
            const real_t m0 = ( k > 0U ) ? ty[ k ] - ty[ k - 1U ] : ty[ 1 ] - ty[ 0 ];
            vf_eq( p.get( x ), cub( ( x - tx[ k ] )/h, h, ty[ k ], m0, ty[ k + 1U ], ty[ k + 1U ] - ty[ k ] ),
                   "cubic: Hermite polynomial through the enclosing nodes" );
        }
        const real_t lo = vf_real( "lo" );
        vf_assume( lo < tx[ 0 ] );
        const real_t hl = tx[ 1 ] - tx[ 0 ];
        vf_eq( p.get( lo ), cub( ( lo - tx[ 0 ] )/hl, hl, ty[ 0 ], ty[ 0 ] - ty[ 1 ], ty[ 1 ], ty[ 1 ] - ty[ 0 ] ), "cubic below the table" );
        const real_t hi = vf_real( "hi" );
        vf_assume( hi > tx[ n - 1U ] );
        const real_t hh = tx[ n - 1U ] - tx[ n - 2U ];
        vf_eq( p.get( hi ), cub( ( hi - tx[ n - 1U ] )/hh, hh, ty[ n - 1U ], ty[ n - 2U ] - ty[ n - 3U ], ty[ n - 2U ], ty[ n - 1U ] - ty[ n - 2U ] ),
               "cubic above the table" );
    }
}
ENTRY H_i1_hermite()
{
    for ( size_t n = 2U ; n <= 4U ; ++n ) {
        real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
        table( tx, ty, n );
        interp1 p( tx, ty, n );
        vf_check( p.setMethod( INTERP1_HERMITE ), "method accepted" );
        const real_t x = vf_real( "x" );
        real_t want;
        if ( x < tx[ 0 ] ) want = chord( x, tx, ty, 0U );
        else if ( x > tx[ n - 1U ] ) want = chord( x, tx, ty, n - 2U );
        else {
            want = 0.0F;
            for ( size_t i = 0U ; i < n ; ++i ) {
                real_t num = 1.0F, den = 1.0F;
                for ( size_t j = 0U ; j < n ; ++j ) if ( i != j ) { num *= x - tx[ j ]; den *= tx[ i ] - tx[ j ]; }
                want += ty[ i ]*num/den;
            }
        }
        vf_eq( p.get( x ), want, "hermite: polynomial through every node inside the table, chords outside" );
    }
}
ENTRY H_i1_spline()
{
    for ( size_t n = 4U ; n <= 5U ; ++n ) {
        real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
        table( tx, ty, n );
        interp1 p( tx, ty, n );
        vf_check( p.setMethod( INTERP1_SPLINE ), "method accepted" );
        for ( size_t k = 0U ; k + 1U < n ; ++k ) {
            const real_t x = vf_real( "x" );
            if ( k > 0U ) vf_assume( x > tx[ k ] );
            if ( k + 2U < n ) vf_assume( x < tx[ k + 1U ] );
            vf_assume( !ffmath::isEqual( x, tx[ k + 1U ] ) );
            const size_t l = ( k > 0U ) ? k - 1U : 0U, r = ( k + 2U < n ) ? k + 2U : n - 1U;
            const real_t m0 = ( ty[ k + 1U ] - ty[ l ] )/( tx[ k + 1U ] - tx[ l ] );
            const real_t m1 = ( ty[ r ] - ty[ k ] )/( tx[ r ] - tx[ k ] );
            const real_t h = tx[ k + 1U ] - tx[ k ];
            vf_eq( p.get( x ), cub( ( x - tx[ k ] )/h, h, ty[ k ], m0, ty[ k + 1U ], m1 ),
                   "spline: Catmull-Rom polynomial of the enclosing interval" );
        }
    }
}
/* slope of the constrained spline at node i */
static real_t cslope( const real_t *tx, const real_t *ty, size_t n, size_t i )
{
    if ( i == 0U ) return 1.5F*( ty[ 1 ] - ty[ 0 ] )/( tx[ 1 ] - tx[ 0 ] )
                        - 1.0F/( ( tx[ 2 ] - tx[ 0 ] )/( ty[ 2 ] - ty[ 0 ] ) + ( tx[ 1 ] - tx[ 0 ] )/( ty[ 1 ] - ty[ 0 ] ) );
    if ( i == n - 1U ) return 1.5F*( ty[ i ] - ty[ i - 1U ] )/( tx[ i ] - tx[ i - 1U ] )
                        - 1.0F/( ( tx[ i ] - tx[ i - 2U ] )/( ty[ i ] - ty[ i - 2U ] ) + ( tx[ i ] - tx[ i - 1U ] )/( ty[ i ] - ty[ i - 1U ] ) );
    const real_t a = ( tx[ i + 1U ] - tx[ i ] )/( ty[ i + 1U ] - ty[ i ] );
    const real_t b = ( tx[ i ] - tx[ i - 1U ] )/( ty[ i ] - ty[ i - 1U ] );
    return ( a*b < 0.0F ) ? 0.0F : 2.0F/( a + b );
}
/* concrete: 0 = abscissae are fixed and the ordinates arbitrary, 1 = the other way round */
static void cs( const size_t n, const int fixed )
{
    static const real_t gx[ 6 ] = { -1.0F, 1.0F, 2.0F, 5.0F, 5.5F, 8.0F };
    static const real_t gy[ 6 ] = { 2.0F, 3.0F, 1.0F, 5.0F, 9.0F, 10.0F };
    for ( size_t k = 0U ; k + 1U < n ; ++k ) {
        real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
        table( tx, ty, n );
        for ( size_t i = 0U ; i < n ; ++i ) ( fixed ? ty : tx )[ i ] = ( fixed ? gy : gx )[ i ];
        for ( size_t i = 1U ; i < n ; ++i ) vf_assume( ty[ i ] != ty[ i - 1U ] );
        vf_assume( ( ty[ 2 ] != ty[ 0 ] ) && ( ty[ n - 3U ] != ty[ n - 1U ] ) );
        interp1 p( tx, ty, n );
        vf_check( p.setMethod( INTERP1_CONSTRAINED_SPLINE ), "method accepted" );
        const real_t x = vf_real( "x" );
        if ( k > 0U ) vf_assume( x > tx[ k ] );
        if ( k + 2U < n ) vf_assume( x < tx[ k + 1U ] );
        vf_assume( !ffmath::isEqual( x, tx[ k + 1U ] ) );
        const real_t h = tx[ k + 1U ] - tx[ k ];
        vf_eq( p.get( x ), cub( ( x - tx[ k ] )/h, h, ty[ k ], cslope( tx, ty, n, k ), ty[ k + 1U ], cslope( tx, ty, n, k + 1U ) ),
               "constrained spline: Hermite polynomial with limited slopes" );
    }
}
ENTRY H_i1_cspline_x4() { cs( 4U, 0 ); }
ENTRY H_i1_cspline_y4() { cs( 4U, 1 ); }
ENTRY H_i1_cspline_x5() { cs( 5U, 0 ); }

/* tables with level parts: the slope there is zero, the curve stays level */
static real_t lslope( const real_t *tx, const real_t *ty, size_t n, size_t i )
{
    const real_t zero = 0.0F;
    if ( i == 0U ) {
        const real_t d = ( ty[ 1 ] - ty[ 0 ] )/( tx[ 1 ] - tx[ 0 ] );
        return 1.5F*d - ( ( ( ty[ 1 ] == ty[ 0 ] ) || ( ty[ 2 ] == ty[ 0 ] ) ) ? zero : 1.0F/( ( tx[ 2 ] - tx[ 0 ] )/( ty[ 2 ] - ty[ 0 ] ) + ( tx[ 1 ] - tx[ 0 ] )/( ty[ 1 ] - ty[ 0 ] ) ) );
    }
    if ( i == n - 1U ) {
        const real_t d = ( ty[ i ] - ty[ i - 1U ] )/( tx[ i ] - tx[ i - 1U ] );
        return 1.5F*d - ( ( ( ty[ i ] == ty[ i - 1U ] ) || ( ty[ i ] == ty[ i - 2U ] ) ) ? zero : 1.0F/( ( tx[ i ] - tx[ i - 2U ] )/( ty[ i ] - ty[ i - 2U ] ) + ( tx[ i ] - tx[ i - 1U ] )/( ty[ i ] - ty[ i - 1U ] ) ) );
    }
    return ( ( ty[ i + 1U ] == ty[ i ] ) || ( ty[ i ] == ty[ i - 1U ] ) ) ? zero : cslope( tx, ty, n, i );
}
ENTRY H_i1_cspline_level()
{
    static const real_t tx[ 5 ] = { 0.0F, 1.0F, 2.0F, 4.0F, 5.0F };
    static const real_t ys[ 7 ][ 5 ] = { { 3.0F, 3.0F, 3.0F, 3.0F, 3.0F }, { 1.0F, 1.0F, 2.0F, 4.0F, 4.0F }, { 1.0F, 2.0F, 2.0F, 2.0F, 1.0F }, { 2.0F, 1.0F, 2.0F, 1.0F, 2.0F }, { 4.0F, 2.0F, 2.0F, 1.0F, 0.0F }, { 0.0F, 1.0F, 3.0F, 3.0F, 5.0F }, { 0.0F, 0.0F, 1.0F, 0.0F, 0.0F } };
    for ( size_t c = 0U ; c < 7U ; ++c ) {
        interp1 p( tx, ys[ c ], 5U );
        vf_check( p.setMethod( INTERP1_CONSTRAINED_SPLINE ), "method accepted" );
        for ( int j = -2 ; j <= 22 ; ++j ) {
            const real_t x = 0.25F*static_cast<real_t>( j );
            size_t k = 0U;
            while ( ( k < 3U ) && ( x >= tx[ k + 1U ] ) ) ++k;
            const real_t h = tx[ k + 1U ] - tx[ k ];
            const real_t want = cub( ( x - tx[ k ] )/h, h, ys[ c ][ k ], lslope( tx, ys[ c ], 5U, k ), ys[ c ][ k + 1U ], lslope( tx, ys[ c ], 5U, k + 1U ) );
            const real_t d = p.get( x ) - want;
            vf_check( ( d < 1e-3F ) && ( d > -1e-3F ), "constrained spline over level parts" );
        }
    }
}

/* tables with more than 256 nodes */
static const size_t BIG = 300U;
static void bigTable( real_t *tx, real_t *ty )
{
    for ( size_t i = 0U ; i < BIG ; ++i ) {
        const int k = static_cast<int>( i );
        tx[ i ] = static_cast<real_t>( 4*k );
        ty[ i ] = static_cast<real_t>( ( k*k ) % 101 + k*128 );       /* strictly increasing */
    }
}
static const int bigAt[] = { -3, 1, 2, 3, 510, 1019, 1021, 1022, 1023, 1025, 1029, 1100, 1101, 1190, 1191, 1193, 1195, 1199 };
static const size_t bigCount = sizeof( bigAt )/sizeof( bigAt[ 0 ] );
static real_t bigWant( const interp1Method m, const real_t x, const real_t *tx, const real_t *ty, const size_t k )
{
    const real_t h = tx[ k + 1U ] - tx[ k ];
    const size_t l = ( k > 0U ) ? k - 1U : 0U, r = ( k + 2U < BIG ) ? k + 2U : BIG - 1U;
    switch ( m ) {
        case INTERP1_PREVIOUS: return ( x >= tx[ BIG - 1U ] ) ? ty[ BIG - 1U ] : ty[ k ];
        case INTERP1_NEXT: return ty[ k + 1U ];
        case INTERP1_NEAREST: return ( 2.0F*x >= ( tx[ k ] + tx[ k + 1U ] ) ) ? ty[ k + 1U ] : ty[ k ];
        case INTERP1_LINEAR: return chord( x, tx, ty, k );
        case INTERP1_CUBIC: return cub( ( x - tx[ k ] )/h, h, ty[ k ], ty[ ( k > 0U ) ? k : 1U ] - ty[ l ], ty[ k + 1U ], ty[ k + 1U ] - ty[ k ] );
        case INTERP1_SPLINE: return cub( ( x - tx[ k ] )/h, h, ty[ k ], ( ty[ k + 1U ] - ty[ l ] )/( tx[ k + 1U ] - tx[ l ] ), ty[ k + 1U ], ( ty[ r ] - ty[ k ] )/( tx[ r ] - tx[ k ] ) );
        default: return cub( ( x - tx[ k ] )/h, h, ty[ k ], cslope( tx, ty, BIG, k ), ty[ k + 1U ], cslope( tx, ty, BIG, k + 1U ) );
    }
}
ENTRY H_i1_large()
{
    static const interp1Method ms[] = { INTERP1_PREVIOUS, INTERP1_NEXT, INTERP1_NEAREST, INTERP1_LINEAR, INTERP1_CUBIC, INTERP1_SPLINE, INTERP1_CONSTRAINED_SPLINE };
    real_t *tx = vf_floats( BIG, "tx" ), *ty = vf_floats( BIG, "ty" );
    bigTable( tx, ty );
    for ( size_t m = 0U ; m < 7U ; ++m ) {
        interp1 p( tx, ty, BIG );
        vf_check( p.setMethod( ms[ m ] ), "method accepted" );
        for ( size_t j = 0U ; j < bigCount ; ++j ) {
            const int i = bigAt[ j ];
            const bool outer = ( i < 0 ) || ( i > 1196 );
            if ( outer && ( ( ms[ m ] == INTERP1_CUBIC ) || ( ms[ m ] == INTERP1_NEXT ) ) ) continue;
            const real_t x = static_cast<real_t>( i );
            const size_t k = ( i < 0 ) ? 0U : ( ( i/4 > 298 ) ? 298U : static_cast<size_t>( i/4 ) );
            const real_t got = p.get( x ), want = bigWant( ms[ m ], x, tx, ty, k );
            if ( ms[ m ] == INTERP1_CONSTRAINED_SPLINE ) vf_check( ( got - want < 1e-2F ) && ( want - got < 1e-2F ), "constrained spline of a long table" );
            else vf_eq( got, want, "interpolation of a long table" );
        }
        if ( ms[ m ] == INTERP1_LINEAR ) {
            vf_eq( p.get( 1101 ), p.get( 1101.0F ), "integer arguments" );
            vf_eq( p.get( 1101.0 ), p.get( 1101.0F ), "double arguments" );
        }
        if ( ms[ m ] != INTERP1_NEXT ) {
            for ( size_t i = 0U ; i < BIG ; i += 23U ) {
                if ( ( ms[ m ] == INTERP1_CONSTRAINED_SPLINE ) ) continue;
                vf_eq( p.get( tx[ i ] ), ty[ i ], "nodes of a long table" );
            }
        }
    }
}
/* tables given as arrays, of float and of other lengths */
ENTRY H_i1_large_sine()
{
    real_t *tx = vf_floats( BIG, "tx" ), *ty = vf_floats( BIG, "ty" );
    bigTable( tx, ty );
    interp1 p( tx, ty, BIG );
    vf_check( p.setMethod( INTERP1_SINE ), "method accepted" );
    for ( size_t j = 1U ; j + 1U < bigCount ; ++j ) {
        const size_t k = static_cast<size_t>( bigAt[ j ]/4 );
        const real_t x = static_cast<real_t>( bigAt[ j ] );
        const real_t got = p.get( x ), want = 0.5F*( ty[ k ] + ty[ k + 1U ] ) + 0.5F*ffmath::cos( ffmath::FFP_PI*( x - tx[ k ] )/( tx[ k + 1U ] - tx[ k ] ) )*( ty[ k ] - ty[ k + 1U ] );
        vf_eq( got, want, "sine interpolation of a long table" );
    }
}
ENTRY H_i1_large_hermite()
{
    real_t tx[ 12 ], ty[ 12 ];
    for ( int i = 0 ; i < 12 ; ++i ) { tx[ i ] = static_cast<real_t>( i ); ty[ i ] = static_cast<real_t>( i*i*i - 3*i ); }
    interp1 p( tx, ty );
    vf_check( p.setMethod( INTERP1_HERMITE ), "method accepted" );
    for ( int i = 0 ; i < 22 ; ++i ) {
        const real_t x = 0.5F*static_cast<real_t>( i );
        vf_eq( p.get( x ), x*x*x - 3.0F*x, "the polynomial through all nodes reproduces a cubic" );
    }
    vf_eq( p.get( 13.0F ), 2.0F*ty[ 11 ] - ty[ 10 ] + ( ty[ 11 ] - ty[ 10 ] ), "chord above" );
    vf_eq( p.get( -1.0F ), ty[ 0 ] - ( ty[ 1 ] - ty[ 0 ] ), "chord below" );
}

/* every method reproduces the nodes */
static void nodes( const size_t n, const interp1Method *ms, const size_t nm, const int shape )
{
    real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
    table( tx, ty, n );
    for ( size_t i = 1U ; i < n ; ++i ) {
        if ( shape > 0 ) vf_assume( ty[ i ] > ty[ i - 1U ] );
        if ( shape < 0 ) vf_assume( ty[ i ] < ty[ i - 1U ] );
        vf_assume( tx[ i ] > tx[ i - 1U ] + 1e-20F );
    }
    for ( size_t m = 0U ; m < nm ; ++m ) {
        interp1 p( tx, ty, n );
        p.setMethod( ms[ m ] );
        for ( size_t i = 0U ; i < n ; ++i ) vf_eq( p.get( tx[ i ] ), ty[ i ], "the interpolant passes through the nodes" );
    }
}
ENTRY H_i1_nodes()
{
    static const interp1Method any[] = { INTERP1_PREVIOUS, INTERP1_NEAREST, INTERP1_LINEAR, INTERP1_SINE, INTERP1_HERMITE, INTERP1_CUBIC, INTERP1_SPLINE };
    static const interp1Method cs1[] = { INTERP1_CONSTRAINED_SPLINE };
    for ( size_t n = 2U ; n <= 6U ; ++n ) nodes( n, any, ( n < 4U ) ? 5U : 7U, 0 );
    for ( size_t n = 4U ; n <= 5U ; ++n ) { nodes( n, cs1, 1U, 1 ); nodes( n, cs1, 1U, -1 ); }
}
/* any floating-point argument (infinities and NaN included) stays inside the tables; a too short or missing table gives NaN */
ENTRY H_i1_safe()
{
    static const interp1Method ms[] = { INTERP1_NEXT, INTERP1_PREVIOUS, INTERP1_NEAREST, INTERP1_LINEAR, INTERP1_SINE, INTERP1_CUBIC,
                                        INTERP1_HERMITE, INTERP1_SPLINE, INTERP1_CONSTRAINED_SPLINE };
    for ( size_t m = 0U ; m < sizeof( ms )/sizeof( ms[ 0 ] ) ; ++m ) {
        for ( size_t n = 0U ; n <= 5U ; ++n ) {
            real_t *tx = vf_floats( n, "tx" ), *ty = vf_floats( n, "ty" );
            for ( size_t i = 0U ; i < n ; ++i ) { tx[ i ] = vf_real( "tx" ); ty[ i ] = vf_real( "ty" ); }
            interp1 p( tx, ty, n );
            vf_check( p.setMethod( ms[ m ] ), "method accepted" );
            const bool four = ( ms[ m ] == INTERP1_CUBIC ) || ( ms[ m ] == INTERP1_SPLINE ) || ( ms[ m ] == INTERP1_CONSTRAINED_SPLINE );
            const real_t y = p.get( vf_real( "x" ) );
            if ( n < ( four ? 4U : 2U ) ) vf_check( vf_isnan( y ), "a table that is too short gives NaN" );
            if ( n >= 2U ) {
                (void) p.get( ffmath::getNan() );
                (void) p.get( ffmath::getInf() );
                (void) p.get( -ffmath::getInf() );
                interp1 q( nullptr, ty, n ), r( tx, nullptr, n );
                q.setMethod( ms[ m ] );
                r.setMethod( ms[ m ] );
                vf_check( vf_isnan( q.get( 0.0F ) ), "no abscissae gives NaN" );
                vf_check( vf_isnan( r.get( 0.0F ) ), "no ordinates gives NaN" );
            }
        }
    }
}
ENTRY H_i1_config()
{
    real_t tx[ 5 ], ty[ 5 ], ux[ 4 ], uy[ 4 ];
    table( tx, ty, 5U );
    table( ux, uy, 4U );
    interp1 p( tx, ty );
    vf_check( p.setMethod( INTERP1_PREVIOUS ), "method accepted" );
    const real_t x = vf_real( "x" );
    interp1 c( tx, ty );
    vf_snapshot( &c, &p, sizeof( p ) );
    vf_check( !p.setMethod( INTERP1_MAX ), "unknown method rejected" );
    vf_check( !p.setMethod( static_cast<interp1Method>( INTERP1_MAX + 5 ) ), "unknown method rejected" );
    vf_check( !p.setData( nullptr, uy, 4U ), "null abscissae rejected" );
    vf_check( !p.setData( ux, nullptr, 4U ), "null ordinates rejected" );
    vf_check( !p.setData( ux, uy, 3U ), "short table rejected" );
    vf_check( !p.setData( ux, uy, 0U ), "empty table rejected" );
    vf_same( &p, &c, sizeof( p ), "a rejected change leaves the interpolator as it was" );
    vf_check( p.setData( ux, uy ), "valid table accepted" );
    real_t want = uy[ 0 ];
    for ( size_t i = 1U ; i < 4U ; ++i ) if ( ux[ i ] <= x ) want = uy[ i ];
    vf_eq( p.get( x ), want, "the new table is used with the method selected before" );
}
