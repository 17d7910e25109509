#include "vf.hpp"
#include <include/tdl.hpp>
using namespace qlibs;

ENTRY H_tdl_order()
{
    for ( size_t n = 1U ; n <= 5U ; ++n ) {
        real_t *area = vf_floats( n, "area" );
        real_t hist[ 24 ];
        tdl d;
        const real_t init = vf_real( "init" );
        d.setup( area, n, init );
        for ( size_t k = 0U ; k < 24U ; ++k ) hist[ k ] = init;
        for ( size_t t = 0U ; t < ( 2U*n + 2U ) ; ++t ) {
            const real_t x = vf_real( "x" );
            for ( size_t k = 23U ; k > 0U ; --k ) hist[ k ] = hist[ k - 1U ];
            hist[ 0 ] = x;
            d.insertSample( x );
            for ( size_t i = 0U ; i < n ; ++i ) {
                vf_eq( d[ static_cast<int>( i ) ], hist[ i ], "d[i] is the i-th most recent sample" );
                vf_eq( d.getAtIndex( i ), hist[ i ], "getAtIndex(i) is the i-th most recent sample" );
            }
            vf_eq( d.getOldest(), hist[ n - 1U ], "getOldest" );
            vf_eq( d[ -1 ], hist[ n - 1U ], "d[-1] is the oldest" );
            vf_eq( d.getRecent(), hist[ 0 ], "getRecent" );
        }
    }
}
ENTRY H_tdl_flush()
{
    for ( size_t n = 1U ; n <= 4U ; ++n ) {
        for ( size_t pre = 0U ; pre <= n ; ++pre ) {
            real_t *area = vf_floats( n, "area" );
            tdl d( area, n, vf_real( "init" ) );
            for ( size_t t = 0U ; t < pre ; ++t ) d( vf_real( "x" ) );
            const real_t v = vf_real( "v" );
            d.flush( v );
            for ( size_t i = 0U ; i < n ; ++i ) vf_eq( d[ static_cast<int>( i ) ], v, "flush refills the whole line" );
            vf_eq( d.getOldest(), v, "flush refills the oldest sample" );
            const real_t x = vf_real( "x" );
            d( x );
            vf_eq( d.getRecent(), x, "call operator inserts the newest sample" );
            for ( size_t i = 1U ; i < n ; ++i ) vf_eq( d[ static_cast<int>( i ) ], v, "older samples stay" );
        }
    }
}
ENTRY H_tdl_range()
{
    for ( size_t n = 1U ; n <= 3U ; ++n ) {
        real_t *area = vf_floats( n, "area" );
        tdl d( area, n, vf_real( "init" ) );
        for ( size_t t = 0U ; t <= n ; ++t ) {
            vf_check( vf_isnan( d[ static_cast<int>( n ) ] ), "index n reads as NaN" );
            vf_check( vf_isnan( d[ static_cast<int>( n ) + 1 ] ), "index past the end reads as NaN" );
            vf_check( vf_isnan( d[ 2147483647 ] ), "huge index reads as NaN" );
            vf_check( vf_isnan( d[ -2 ] ), "index -2 reads as NaN" );
            vf_check( vf_isnan( d[ -2147483647 - 1 ] ), "most negative index reads as NaN" );
            d( vf_real( "x" ) );
        }
    }
}
/* the cursor positions recur: n insertions bring the line back to the same configuration */
ENTRY HT_tdl_closure()
{
    for ( size_t n = 1U ; n <= 6U ; ++n ) {
        real_t *area = vf_floats( n, "area" );
        tdl d( area, n, vf_real( "init" ) ), e( area, n, vf_real( "init" ) );
        vf_snapshot( &e, &d, sizeof( d ) );
        for ( size_t t = 0U ; t < n ; ++t ) d( vf_real( "x" ) );
        vf_same( &d, &e, sizeof( d ), "after n insertions the line is back in its initial configuration" );
    }
}
ENTRY H_tdl_forms()
{
    real_t area[ 3 ];
    tdl a( area );
    vf_eq( a.getOldest(), 0.0F, "default initial value is zero" );
    const real_t v = vf_real( "v" );
    tdl b( area, v );
    for ( int i = 0 ; i < 3 ; ++i ) vf_eq( b[ i ], v, "array constructor fills the line" );
    tdl c;
    vf_check( !c.isInitialized(), "a default constructed line is not initialised" );
    c.setup( area, v );
    vf_check( c.isInitialized(), "a set up line is initialised" );
    for ( int i = 0 ; i < 3 ; ++i ) vf_eq( c[ i ], v, "array setup fills the line" );
}
/* long lines: positions beyond what 8-bit (and 9-bit) indices can hold */
ENTRY H_tdl_large()
{
    constexpr int n = 600;
    real_t *area = vf_floats( n, "area" );
    tdl d( area, static_cast<size_t>( n ), -1.0F );
    for ( int t = 1 ; t <= n + 300 ; ++t ) {
        d( static_cast<real_t>( t ) );
        vf_eq( d.getRecent(), static_cast<real_t>( t ), "newest of a long line" );
        vf_eq( d.getOldest(), ( t >= n ) ? static_cast<real_t>( t - n + 1 ) : -1.0F, "oldest of a long line" );
        vf_eq( d[ -1 ], ( t >= n ) ? static_cast<real_t>( t - n + 1 ) : -1.0F, "d[-1] of a long line" );
        vf_eq( d[ 255 ], ( t > 255 ) ? static_cast<real_t>( t - 255 ) : -1.0F, "sample 255 of a long line" );
        vf_eq( d[ 256 ], ( t > 256 ) ? static_cast<real_t>( t - 256 ) : -1.0F, "sample 256 of a long line" );
        vf_eq( d.getAtIndex( 300U ), ( t > 300 ) ? static_cast<real_t>( t - 300 ) : -1.0F, "sample 300 of a long line" );
    }
    for ( int i = 0 ; i < n ; ++i ) vf_eq( d[ i ], static_cast<real_t>( n + 300 - i ), "every sample of a long line" );
    vf_check( vf_isnan( d[ n ] ), "index n of a long line reads as NaN" );
    d.flush( 7.0F );
    for ( int i = 0 ; i < n ; ++i ) vf_eq( d[ i ], 7.0F, "flush of a long line" );
}
/* a line longer than 65536 elements: only the ends are visited */
ENTRY H_tdl_huge()
{
    constexpr int n = 66000;
    real_t *area = vf_floats( n, "area" );
    tdl d( area, static_cast<size_t>( n ), 5.0F );
    for ( int t = 1 ; t <= 3 ; ++t ) d( static_cast<real_t>( -t ) );
    for ( int i = 0 ; i < 3 ; ++i ) vf_eq( d[ i ], static_cast<real_t>( i - 3 ), "newest samples of a huge line" );
    vf_eq( d[ 3 ], 5.0F, "fourth sample of a huge line" );
    vf_eq( d[ n - 1 ], 5.0F, "last index of a huge line" );
    vf_eq( d[ -1 ], 5.0F, "oldest sample of a huge line" );
    vf_check( vf_isnan( d[ n ] ), "index n of a huge line reads as NaN" );
    for ( int i = 0 ; i < n ; i += 977 ) vf_eq( area[ i ], ( i == 0 ) ? area[ 0 ] : 5.0F, "a huge line is filled" );
    for ( int t = 0 ; t < n - 3 ; ++t ) d( static_cast<real_t>( t ) );
    for ( int i = 0 ; i < n - 3 ; i += 64 ) {
        vf_eq( d[ i ], static_cast<real_t>( n - 4 - i ), "samples of a huge line" );
        vf_eq( d.getAtIndex( static_cast<size_t>( i ) ), static_cast<real_t>( n - 4 - i ), "samples of a huge line" );
    }
    vf_eq( d[ n - 1 ], -1.0F, "oldest sample of a huge line" );
    vf_eq( d.getAtIndex( static_cast<size_t>( n - 2 ) ), -2.0F, "a sample of a huge line" );
    vf_eq( d.getOldest(), -1.0F, "oldest sample of a huge line" );
}
