/* Reference difference equations of the smoothing filters. */
#include "vf.hpp"
#include <include/smoother.hpp>
#include <include/ffmath.hpp>
#include <include/rms.hpp>
using namespace qlibs;

static const size_t STEPS = 4U;
static float rabs( float x ) { return ( x < 0.0F ) ? -x : x; }

static real_t unit( const char *n )   /* any value in (0,1) */
{
    const real_t a = vf_real( n );
    vf_assume( ( a > 0.0F ) && ( a < 1.0F ) );
    return a;
}

/* two rounds: the second one after reset() must repeat the first-round law */
ENTRY H_law_LPF1()
{
    smootherLPF1 f;
    const real_t a = unit( "a" );
    vf_check( f.setup( a ), "LPF1 setup accepted" );
    for ( int round = 0 ; round < 2 ; ++round ) {
        real_t y = 0.0F;
        for ( size_t t = 0U ; t < STEPS ; ++t ) {
            const real_t x = vf_real( "x" );
            y = ( 0U == t ) ? x : ( ( a*y ) + ( ( 1.0F - a )*x ) );
            vf_eq( f.smooth( x ), y, "LPF1 y(k)=a*y(k-1)+(1-a)*x(k)" );
        }
        vf_check( f.reset(), "LPF1 reset" );
    }
}
ENTRY H_law_LPF2()
{
    smootherLPF2 f;
    const real_t a = unit( "a" );
    vf_check( f.setup( a ), "LPF2 setup accepted" );
    const real_t s = ffmath::sqrt( 2.0F*a );
    const real_t r = 1.0F + s + ( a*a );
    for ( int round = 0 ; round < 2 ; ++round ) {
        real_t y1 = 0.0F, y2 = 0.0F, x1 = 0.0F, x2 = 0.0F;
        for ( size_t t = 0U ; t < 3U ; ++t ) {
            const real_t x = vf_real( "x" );
            if ( 0U == t ) { y1 = y2 = x1 = x2 = x; }
            const real_t want = ( ( a*a*( x + 2.0F*x1 + x2 ) ) - ( 2.0F*( a*a - 1.0F )*y1 ) - ( ( 1.0F - s + a*a )*y2 ) )/r;
            const real_t y = f.smooth( x );
            vf_eq( y, want, "LPF2 second order recursion" );
            x2 = x1; x1 = x; y2 = y1; y1 = y;
        }
        (void)f.reset();
    }
}
ENTRY H_law_MWM1()
{
    for ( size_t n = 1U ; n <= 4U ; ++n ) {
        real_t *w = vf_floats( n, "window" );
        smootherMWM1 f;
        real_t h[ 8 ];
        vf_check( f.setup( w, n ), "MWM1 setup accepted" );
        for ( int round = 0 ; round < 2 ; ++round ) {
            for ( size_t t = 0U ; t < n + 2U ; ++t ) {
                const real_t x = vf_real( "x" );
                real_t m = 0.0F;
                if ( 0U == t ) for ( size_t i = 0U ; i < 8U ; ++i ) h[ i ] = x;
                for ( size_t i = 7U ; i > 0U ; --i ) h[ i ] = h[ i - 1U ];
                h[ 0 ] = x;
                for ( size_t i = 0U ; i < n ; ++i ) m += h[ i ];
                vf_eq( f.smooth( x ), m/static_cast<real_t>( n ), "MWM1 output is the mean of the last n samples" );
            }
            (void)f.reset();
        }
    }
}
ENTRY H_law_MWM2()
{
    for ( size_t n = 1U ; n <= 4U ; ++n ) {
        real_t *w = vf_floats( n, "window" );
        smootherMWM2 f;
        real_t h[ 8 ];
        vf_check( f.setup( w, n ), "MWM2 setup accepted" );
        for ( int round = 0 ; round < 2 ; ++round ) {
            for ( size_t t = 0U ; t < 2U*n + 1U ; ++t ) {
                const real_t x = vf_real( "x" );
                real_t m = 0.0F;
                if ( 0U == t ) for ( size_t i = 0U ; i < 8U ; ++i ) h[ i ] = x;
                for ( size_t i = 7U ; i > 0U ; --i ) h[ i ] = h[ i - 1U ];
                h[ 0 ] = x;
                for ( size_t i = 0U ; i < n ; ++i ) m += h[ i ];
                vf_eq( f.smooth( x ), m/static_cast<real_t>( n ), "MWM2 output is the mean of the last n samples" );
            }
            (void)f.reset();
        }
    }
}
template<class F>
static void mor( const char *what )
{
    for ( size_t n = 1U ; n <= 3U ; ++n ) {
        real_t *w = vf_floats( n, "window" );
        F f;
        real_t h[ 8 ];
        const real_t a = unit( "a" );
        vf_check( f.setup( w, n, a ), "outlier filter setup accepted" );
        for ( int round = 0 ; round < 2 ; ++round ) {
            real_t mean = 0.0F;
            for ( size_t t = 0U ; t < 3U ; ++t ) {
                const real_t x = vf_real( "x" );
                if ( 0U == t ) {
                    for ( size_t i = 0U ; i < 8U ; ++i ) h[ i ] = x;
                    mean = x;
                }
                const real_t want = ( rabs( mean - x ) > ( a*rabs( mean ) ) ) ? mean : x;
                const real_t got = f.smooth( x );
                vf_eq( got, want, what );
                for ( size_t i = 7U ; i > 0U ; --i ) h[ i ] = h[ i - 1U ];
                h[ 0 ] = want;
                mean = 0.0F;
                for ( size_t i = 0U ; i < n ; ++i ) mean += h[ i ];
                mean /= static_cast<real_t>( n );
            }
            (void)f.reset();
        }
    }
}
ENTRY H_law_MOR1() { mor<smootherMOR1>( "MOR1 keeps inliers and replaces outliers by the window mean" ); }
ENTRY H_law_MOR2() { mor<smootherMOR2>( "MOR2 keeps inliers and replaces outliers by the window mean" ); }
ENTRY H_law_GMWF()
{
    for ( size_t n = 1U ; n <= 4U ; ++n ) {
        real_t *w = vf_floats( n, "window" );
        real_t *k = vf_floats( n, "kernel" );
        smootherGMWF f;
        real_t h[ 8 ], g[ 8 ];
        const real_t sg = vf_real( "sigma" ), c = vf_real( "c" );
        vf_assume( ( sg > 0.0F ) && ( c < static_cast<real_t>( n ) ) );
        vf_check( f.setup( sg, c, w, k, n ), "GMWF setup accepted" );
        real_t sum = 0.0F;
        for ( size_t i = 0U ; i < n ; ++i ) {
            const real_t d = static_cast<real_t>( i ) - c;
            g[ i ] = ffmath::exp( -( d*d )/( 2.0F*sg*sg ) );
            sum += g[ i ];
        }
        for ( size_t i = 0U ; i < n ; ++i ) vf_eq( k[ i ], g[ i ]/sum, "GMWF kernel is the normalised gaussian" );
        for ( int round = 0 ; round < 2 ; ++round ) {
            for ( size_t t = 0U ; t < n + 1U ; ++t ) {
                const real_t x = vf_real( "x" );
                real_t y = 0.0F;
                if ( 0U == t ) for ( size_t i = 0U ; i < 8U ; ++i ) h[ i ] = x;
                for ( size_t i = 7U ; i > 0U ; --i ) h[ i ] = h[ i - 1U ];
                h[ 0 ] = x;
                for ( size_t i = 0U ; i < n ; ++i ) y += h[ i ]*k[ i ];
                vf_eq( f.smooth( x ), y, "GMWF output is the kernel-weighted window" );
            }
            (void)f.reset();
        }
    }
}
ENTRY H_law_EXPW()
{
    smootherEXPW f;
    const real_t l = unit( "lambda" );
    vf_check( f.setup( l ), "EXPW setup accepted" );
    for ( int round = 0 ; round < 2 ; ++round ) {
        real_t m = 0.0F, w = 1.0F;
        for ( size_t t = 0U ; t < STEPS ; ++t ) {
            const real_t x = vf_real( "x" );
            if ( 0U == t ) m = x;
            w = ( l*w ) + 1.0F;
            m = m + ( ( x - m )/w );
            vf_eq( f.smooth( x ), m, "EXPW m(k)=m(k-1)+(x-m(k-1))/w(k), w(k)=lambda*w(k-1)+1" );
        }
        (void)f.reset();
    }
}
ENTRY H_law_KLMN()
{
    smootherKLMN f;
    const real_t q = vf_real( "q" ), r = vf_real( "r" ), p0 = vf_real( "p" );
    vf_assume( ( q > 0.0F ) && ( r > 0.0F ) && ( p0 > 0.0F ) );
    vf_check( f.setup( q, r, p0 ), "KLMN setup accepted" );
    for ( int round = 0 ; round < 2 ; ++round ) {
        real_t s = 0.0F, p = p0;
        for ( size_t t = 0U ; t < 3U ; ++t ) {
            const real_t x = vf_real( "x" );
            if ( 0U == t ) s = x;
            p = p + q;
            const real_t g = p/( p + r );
            s = s + g*( x - s );
            p = ( 1.0F - g )*p;
            vf_eq( f.smooth( x ), s, "KLMN scalar Kalman update" );
        }
        (void)f.reset();
    }
}
ENTRY H_law_DESF()
{
    static const size_t horizon[ 6 ] = { 0U, 1U, 2U, 255U, 256U, 70000U };
    for ( size_t k = 0U ; k < 6U ; ++k ) {
        const size_t n = horizon[ k ];
        smootherDESF f;
        const real_t a = unit( "a" ), b = unit( "b" );
        vf_check( f.setup( a, b, n ), "DESF setup accepted" );
        for ( int round = 0 ; round < 2 ; ++round ) {
            real_t l = 0.0F, tr = 0.0F;
            for ( size_t t = 0U ; t < 3U ; ++t ) {
                const real_t x = vf_real( "x" );
                if ( 0U == t ) { l = x; tr = x; }
                const real_t l1 = l;
                l = ( ( 1.0F - a )*l ) + ( a*x );
                tr = ( ( 1.0F - b )*tr ) + ( b*( l - l1 ) );
                vf_eq( f.smooth( x ), l + ( static_cast<real_t>( n )*tr ), "DESF Holt level/trend forecast" );
            }
            (void)f.reset();
        }
    }
}
static void alnf( const bool momentum )
{
    for ( size_t n = 1U ; n <= 3U ; ++n ) {
        real_t *win = vf_floats( n, "window" );
        real_t *wei = vf_floats( n, "weights" );
        real_t *mom = vf_floats( n, "w1" );
        real_t h[ 4 ], w[ 4 ], wp[ 4 ];
        smootherALNF f;
        const real_t a = unit( "a" );
        const real_t mu = momentum ? unit( "mu" ) : 0.0F;
        vf_check( f.setup( a, mu, n, win, wei, momentum ? mom : nullptr ), "ALNF setup accepted" );
        for ( int round = 0 ; round < 2 ; ++round ) {
            for ( size_t t = 0U ; t < 4U ; ++t ) {
                const real_t x = vf_real( "x" );
                real_t xe = 0.0F;
                if ( 0U == t ) {
                    for ( size_t i = 0U ; i < 4U ; ++i ) { h[ i ] = x; w[ i ] = wp[ i ] = 1.0F/static_cast<real_t>( n ); }
                }
                for ( size_t i = n ; i > 1U ; --i ) h[ i - 1U ] = h[ i - 2U ];
                h[ 0 ] = x;
                for ( size_t i = 0U ; i < n ; ++i ) xe += h[ i ]*w[ i ];
                for ( size_t i = 0U ; i < n ; ++i ) {
                    const real_t w0 = w[ i ];
                    w[ i ] = w0 + ( a*( x - xe )*h[ i ] ) + ( mu*( w0 - wp[ i ] ) );
                    wp[ i ] = w0;
                }
                vf_eq( f.smooth( x ), xe, "ALNF adaptive linear estimate" );
                for ( size_t i = 0U ; i < n ; ++i ) vf_eq( wei[ i ], w[ i ], "ALNF weight adaptation" );
            }
            (void)f.reset();
        }
    }
}
ENTRY H_law_ALNF_momentum() { alnf( true ); }
ENTRY H_law_ALNF_plain() { alnf( false ); }
/* long histories and windows beyond 256 elements, with concrete samples */
static real_t sample( const int t ) { return static_cast<real_t>( ( ( t*7 ) % 11 ) - 5 ); }
static const int LARGE = 300;
template<class F> static void largeWindow( const char *what )
{
    real_t *w = vf_floats( LARGE, "window" );
    F f;
    vf_check( f.setup( w, static_cast<size_t>( LARGE ) ), "window filter accepts a long window" );
    for ( int round = 0 ; round < 2 ; ++round ) {
        int sum = LARGE*( static_cast<int>( sample( 0 ) ) );
        for ( int t = 0 ; t < 2*LARGE + 3 ; t += 1 ) {
            sum += static_cast<int>( sample( t ) ) - static_cast<int>( sample( ( t > LARGE ) ? ( t - LARGE ) : 0 ) );
            vf_eq( f.smooth( sample( t ) ), static_cast<real_t>( sum )/static_cast<real_t>( LARGE ), what );
        }
        (void)f.reset();
    }
}
ENTRY H_law_large_MWM1()
{
    real_t *w = vf_floats( LARGE, "window" );
    smootherMWM1 f;
    vf_check( f.setup( w, static_cast<size_t>( LARGE ) ), "MWM1 accepts a long window" );
    int sum = LARGE*( static_cast<int>( sample( 0 ) ) );
    for ( int t = 0 ; t < LARGE + 5 ; ++t ) {
        sum += static_cast<int>( sample( t ) ) - static_cast<int>( sample( ( t > LARGE ) ? ( t - LARGE ) : 0 ) );
        vf_eq( f.smooth( sample( t ) ), static_cast<real_t>( sum )/static_cast<real_t>( LARGE ), "MWM1 mean of a long window" );
    }
}
ENTRY H_law_large_MWM2() { largeWindow<smootherMWM2>( "MWM2 mean of a long window" ); }
ENTRY H_law_large_MOR1()
{
    real_t *w = vf_floats( LARGE, "window" );
    smootherMOR1 f;
    vf_check( f.setup( w, static_cast<size_t>( LARGE ), 0.5F ), "MOR1 accepts a long window" );
    vf_eq( f.smooth( 8.0F ), 8.0F, "MOR1 first sample" );
    for ( int t = 0 ; t < LARGE ; ++t ) vf_eq( f.smooth( 9.0F ), 9.0F, "MOR1 inlier in a long window" );
    vf_eq( f.smooth( 50.0F ), 9.0F, "MOR1 mean of a long window" );
    vf_eq( f.smooth( -50.0F ), 9.0F, "MOR1 mean of a long window" );
}
ENTRY H_law_large_MOR2()
{
    real_t *w = vf_floats( LARGE, "window" );
    smootherMOR2 f;
    vf_check( f.setup( w, static_cast<size_t>( LARGE ), 0.5F ), "MOR2 accepts a long window" );
    vf_eq( f.smooth( 8.0F ), 8.0F, "MOR2 first sample" );
    for ( int k = 1 ; k <= 150 ; ++k ) vf_eq( f.smooth( 10.0F ), 10.0F, "MOR2 inlier in a long window" );
    /* 150 samples at 10, 150 at 8 */
    vf_eq( f.smooth( 50.0F ), 9.0F, "MOR2 mean of a long window" );
}
ENTRY H_law_large_GMWF()
{
    real_t *w = vf_floats( LARGE, "window" );
    real_t *k = vf_floats( LARGE, "kernel" );
    smootherGMWF f;
    vf_check( f.setup( 100.0F, 120.0F, w, k, static_cast<size_t>( LARGE ) ), "GMWF accepts a long window" );
    /* an impulse walks through the kernel */
    (void)f.smooth( 0.0F );
    for ( int t = 0 ; t < LARGE ; ++t ) k[ t ] = static_cast<real_t>( t + 1 );
    vf_eq( f.smooth( 1.0F ), 1.0F, "GMWF kernel entry" );
    for ( int t = 1 ; t < LARGE ; ++t ) vf_eq( f.smooth( 0.0F ), static_cast<real_t>( t + 1 ), "GMWF kernel entry of a long window" );
    vf_eq( f.smooth( 0.0F ), 0.0F, "GMWF impulse leaves a long window" );
}
ENTRY H_law_large_ALNF()
{
    real_t *win = vf_floats( LARGE, "window" );
    real_t *wei = vf_floats( LARGE, "weights" );
    real_t *mom = vf_floats( LARGE, "w1" );
    smootherALNF f;
    const real_t a = 0.5F, mu = 0.25F;
    vf_check( f.setup( a, mu, static_cast<size_t>( LARGE ), win, wei, mom ), "ALNF accepts a long window" );
    vf_eq( f.smooth( 2.0F ), 2.0F, "ALNF first sample" );
    const real_t w0 = 1.0F/static_cast<real_t>( LARGE );
    /* second sample: estimate (299*2 + 32)/300 = 2.1, error 29.9 */
    const real_t xe = ( 2.0F*static_cast<real_t>( LARGE - 1 ) + 32.0F )*w0;
    vf_eq( f.smooth( 32.0F ), xe, "ALNF estimate over a long window" );
    for ( int i = 0 ; i < LARGE ; ++i ) {
        vf_eq( wei[ i ], w0 + a*( 32.0F - xe )*( ( i == 0 ) ? 32.0F : 2.0F ), "ALNF weight of a long window" );
    }
}
ENTRY H_law_long_LPF1()
{
    smootherLPF1 f;
    vf_check( f.setup( 0.5F ), "LPF1 setup accepted" );
    real_t y = sample( 0 );
    for ( int t = 0 ; t < 600 ; ++t ) {
        const real_t x = sample( t );
        y = ( 0 == t ) ? x : ( 0.5F*y + 0.5F*x );
        vf_eq( f.smooth( x ), y, "LPF1 over a long history" );
    }
}
ENTRY H_law_long_LPF2()
{
    smootherLPF2 f;
    const real_t a = 0.125F;      /* sqrt(2a) = 1/2 */
    vf_check( f.setup( a ), "LPF2 setup accepted" );
    for ( int t = 0 ; t < 600 ; ++t ) vf_eq( f.smooth( 3.0F ), 3.0F, "LPF2 keeps a constant over a long history" );
}
ENTRY H_law_long_EXPW()
{
    smootherEXPW f;
    vf_check( f.setup( 0.5F ), "EXPW setup accepted" );
    real_t m = sample( 0 ), w = 1.0F;
    for ( int t = 0 ; t < 40 ; ++t ) {
        const real_t x = sample( t );
        w = 0.5F*w + 1.0F;
        m = m + ( x - m )/w;
        vf_eq( f.smooth( x ), m, "EXPW over a long history" );
    }
}
ENTRY H_law_long_KLMN()
{
    smootherKLMN f;
    vf_check( f.setup( 1.0F, 2.0F, 1.0F ), "KLMN setup accepted" );
    real_t s = sample( 0 ), p = 1.0F;
    for ( int t = 0 ; t < 300 ; ++t ) {
        const real_t x = sample( t );
        p = p + 1.0F;
        const real_t g = p/( p + 2.0F );
        s = s + g*( x - s );
        p = ( 1.0F - g )*p;
        vf_eq( f.smooth( x ), s, "KLMN over a long history" );
    }
}
ENTRY H_law_long_DESF()
{
    smootherDESF f;
    vf_check( f.setup( 0.5F, 0.25F, 2U ), "DESF setup accepted" );
    real_t l = sample( 0 ), tr = sample( 0 );
    for ( int t = 0 ; t < 300 ; ++t ) {
        const real_t x = sample( t ), l1 = l;
        l = 0.5F*l + 0.5F*x;
        tr = 0.75F*tr + 0.25F*( l - l1 );
        vf_eq( f.smooth( x ), l + 2.0F*tr, "DESF over a long history" );
    }
}
/* a filter that has been in use and is set up again behaves as one that has just been made */
template<class F> static void again( F &used, F &fresh, const char *what )
{
    for ( size_t t = 0U ; t < 4U ; ++t ) {
        const real_t x = ( t < 2U ) ? vf_real( "x" ) : static_cast<real_t>( 3U - t ), a = used.smooth( x );
        vf_eq( a, fresh.smooth( x ), what );
    }
}
template<class F> static void use( F &f ) { for ( int t = 0 ; t < 3 ; ++t ) (void)f.smooth( vf_real( "earlier" ) ); }
ENTRY H_law_again_LPF()
{
    { smootherLPF1 f, g; const real_t a = unit( "a" ); vf_check( f.setup( 0.5F ), "setup" ); use( f ); vf_check( f.setup( a ) && g.setup( a ), "setup" ); again( f, g, "LPF1 set up again" ); }
    { smootherLPF2 f, g; const real_t a = 0.25F; vf_check( f.setup( 0.5F ), "setup" ); use( f ); vf_check( f.setup( a ) && g.setup( a ), "setup" ); again( f, g, "LPF2 set up again" ); }
}
ENTRY H_law_again_MWM()
{
    { smootherMWM1 f, g; real_t *w = vf_floats( 4U, "w" ), *v = vf_floats( 3U, "v" ); vf_check( f.setup( w, 4U ), "setup" ); use( f ); vf_check( f.setup( w, 3U ) && g.setup( v, 3U ), "setup" ); again( f, g, "MWM1 set up again" ); }
    { smootherMWM2 f, g; real_t *w = vf_floats( 4U, "w" ), *v = vf_floats( 3U, "v" ); vf_check( f.setup( w, 4U ), "setup" ); use( f ); vf_check( f.setup( w, 3U ) && g.setup( v, 3U ), "setup" ); again( f, g, "MWM2 set up again" ); }
}
ENTRY H_law_again_MOR()
{
    { smootherMOR1 f, g; real_t *w = vf_floats( 4U, "w" ), *v = vf_floats( 3U, "v" ); vf_check( f.setup( w, 4U, 0.5F ), "setup" ); use( f ); vf_check( f.setup( w, 3U, 0.25F ) && g.setup( v, 3U, 0.25F ), "setup" ); again( f, g, "MOR1 set up again" ); }
    { smootherMOR2 f, g; real_t *w = vf_floats( 4U, "w" ), *v = vf_floats( 3U, "v" ); vf_check( f.setup( w, 4U, 0.5F ), "setup" ); use( f ); vf_check( f.setup( w, 3U, 0.25F ) && g.setup( v, 3U, 0.25F ), "setup" ); again( f, g, "MOR2 set up again" ); }
}
ENTRY H_law_again_others()
{
    { smootherGMWF f, g; real_t *w = vf_floats( 4U, "w" ), *v = vf_floats( 3U, "v" ), *k = vf_floats( 4U, "k" ), *j = vf_floats( 3U, "j" );
      vf_check( f.setup( 2.0F, 1.0F, w, k, 4U ), "setup" ); use( f ); vf_check( f.setup( 0.5F, 2.0F, w, k, 3U ) && g.setup( 0.5F, 2.0F, v, j, 3U ), "setup" ); again( f, g, "GMWF set up again" ); }
    { smootherEXPW f, g; const real_t a = unit( "a" ); vf_check( f.setup( 0.5F ), "setup" ); use( f ); vf_check( f.setup( a ) && g.setup( a ), "setup" ); again( f, g, "EXPW set up again" ); }
    { smootherKLMN f, g; vf_check( f.setup( 2.0F, 3.0F, 4.0F ), "setup" ); use( f ); vf_check( f.setup( 0.5F, 1.0F, 0.25F ) && g.setup( 0.5F, 1.0F, 0.25F ), "setup" ); again( f, g, "KLMN set up again" ); }
    { smootherDESF f, g; vf_check( f.setup( 0.5F, 0.25F, 5U ), "setup" ); use( f ); vf_check( f.setup( 0.75F, 0.5F, 1U ) && g.setup( 0.75F, 0.5F, 1U ), "setup" ); again( f, g, "DESF set up again" ); }
}
ENTRY H_law_again_ALNF()
{
    for ( int k = 0 ; k < 4 ; ++k ) {
        const real_t m0 = ( k & 1 ) ? 0.5F : 0.0F, m1 = ( k & 2 ) ? 0.25F : 0.0F;
        smootherALNF f, g;
        real_t *w = vf_floats( 4U, "w" ), *v = vf_floats( 3U, "v" ), *p = vf_floats( 4U, "p" ), *q = vf_floats( 3U, "q" ), *m = vf_floats( 4U, "m" ), *n = vf_floats( 3U, "n" );
        for ( size_t i = 0U ; i < 4U ; ++i ) m[ i ] = 7.0F;
        vf_check( f.setup( 0.5F, m0, 4U, w, p, m ), "setup" );
        use( f );
        real_t keep[ 4 ];
        for ( size_t i = 0U ; i < 4U ; ++i ) keep[ i ] = m[ i ];
        vf_check( f.setup( 0.25F, m1, 3U, w, p, ( k & 2 ) ? m : nullptr ) && g.setup( 0.25F, m1, 3U, v, q, ( k & 2 ) ? n : nullptr ), "setup" );
        again( f, g, "ALNF set up again" );
        if ( 0 == ( k & 2 ) ) for ( size_t i = 0U ; i < 4U ; ++i ) vf_eq( m[ i ], keep[ i ], "ALNF leaves storage alone that it was not given" );
    }
}
/*---------------------------------------------------------------- configuration */
static real_t anyf( const char *n )      /* any finite value, NaN or an infinity */
{
    const uint8_t k = vf_u8( "kind" );
    if ( 1U == k ) return __builtin_nanf( "" );
    if ( 2U == k ) return __builtin_inff();
    if ( 3U == k ) return -__builtin_inff();
    return vf_real( n );
}
static bool inUnit( const real_t a ) { return ( a > 0.0F ) && ( a < 1.0F ); }
#define REJECT( F, OLD, WHAT ) vf_same( &F, &OLD, sizeof( F ), WHAT " rejected settings leave the filter unchanged" )

ENTRY H_cfg_LPF1()
{
    smootherLPF1 f, g;
    vf_check( f.setup( unit( "a0" ) ), "LPF1 setup accepted" );
    (void)f.smooth( vf_real( "x" ) );
    vf_snapshot( &g, &f, sizeof( f ) );
    const real_t a = vf_fbits( "a" );
    const bool ok = inUnit( a );
    vf_check( f.setup( a ) == ok, "LPF1 accepted exactly in (0,1)" );
    vf_assume( !ok );
    REJECT( f, g, "LPF1" );
}
ENTRY H_cfg_LPF2()
{
    smootherLPF2 f, g;
    vf_check( f.setup( unit( "a0" ) ), "LPF2 setup accepted" );
    (void)f.smooth( vf_real( "x" ) );
    vf_snapshot( &g, &f, sizeof( f ) );
    const real_t a = anyf( "a" );
    const bool ok = inUnit( a );
    vf_check( f.setup( a ) == ok, "LPF2 accepted exactly in (0,1)" );
    vf_assume( !ok );
    REJECT( f, g, "LPF2" );
}
template<class F> static void cfgWindow()
{
    real_t *w = vf_floats( 2U, "w" ), *v = vf_floats( 2U, "v" );
    F f, g;
    vf_check( !f.setup( nullptr, 2U ), "window filter rejects a null window" );
    vf_check( !f.setup( v, 0U ), "window filter rejects an empty window" );
    vf_check( f.setup( w, 2U ), "window filter setup accepted" );
    (void)f.smooth( vf_real( "x" ) );
    vf_snapshot( &g, &f, sizeof( f ) );
    vf_check( !f.setup( nullptr, 2U ), "window filter rejects a null window" );
    vf_check( !f.setup( v, 0U ), "window filter rejects an empty window" );
    REJECT( f, g, "moving window" );
    vf_check( f.setup( v, 1U ), "window filter accepts a new window" );
    const real_t x = vf_real( "x" );
    vf_eq( f.smooth( x ), x, "a new window starts from its first sample" );
}
ENTRY H_cfg_MWM1() { cfgWindow<smootherMWM1>(); }
ENTRY H_cfg_MWM2() { cfgWindow<smootherMWM2>(); }
template<class F> static void cfgMor()
{
    real_t *w = vf_floats( 2U, "w" ), *v = vf_floats( 2U, "v" );
    F f, g;
    vf_check( f.setup( w, 2U, unit( "a0" ) ), "outlier filter setup accepted" );
    (void)f.smooth( vf_real( "x" ) );
    vf_snapshot( &g, &f, sizeof( f ) );
    vf_check( !f.setup( nullptr, 2U, 0.5F ), "outlier filter rejects a null window" );
    vf_check( !f.setup( v, 0U, 0.5F ), "outlier filter rejects an empty window" );
    REJECT( f, g, "outlier filter" );
    const real_t a = vf_fbits( "a" );
    const bool ok = inUnit( a );
    vf_check( f.setup( v, 2U, a ) == ok, "outlier filter accepted exactly in (0,1)" );
    vf_assume( !ok );
    REJECT( f, g, "outlier filter" );
}
ENTRY H_cfg_MOR1() { cfgMor<smootherMOR1>(); }
ENTRY H_cfg_MOR2() { cfgMor<smootherMOR2>(); }
ENTRY H_cfg_GMWF()
{
    real_t *w = vf_floats( 2U, "w" ), *k = vf_floats( 2U, "k" ), *v = vf_floats( 2U, "v" ), *l = vf_floats( 2U, "l" );
    smootherGMWF f, g;
    vf_check( f.setup( 1.0F, 0.0F, w, k, 2U ), "GMWF setup accepted" );
    (void)f.smooth( vf_real( "x" ) );
    vf_snapshot( &g, &f, sizeof( f ) );
    vf_check( !f.setup( 1.0F, 0.0F, nullptr, l, 2U ), "GMWF rejects a null window" );
    vf_check( !f.setup( 1.0F, 0.0F, v, nullptr, 2U ), "GMWF rejects a null kernel" );
    vf_check( !f.setup( 1.0F, -1.0F, v, l, 0U ), "GMWF rejects an empty window" );
    REJECT( f, g, "GMWF" );
    const real_t s = vf_real( "sigma" ), c = vf_real( "c" );
    const uint8_t q = vf_u8( "q" );
    const real_t nan = __builtin_nanf( "" );
    const bool ok = ( s > 0.0F ) && ( c < 2.0F ) && ( 1U != q ) && ( 2U != q );
    if ( 1U == q ) vf_check( !f.setup( nan, c, v, l, 2U ), "GMWF rejects a NaN deviation" );
    else if ( 2U == q ) vf_check( !f.setup( s, nan, v, l, 2U ), "GMWF rejects a NaN offset" );
    else vf_check( f.setup( s, c, v, l, 2U ) == ok, "GMWF accepted exactly for a positive deviation and an offset below the size" );
    vf_assume( !ok );
    REJECT( f, g, "GMWF" );
}
ENTRY H_cfg_EXPW()
{
    smootherEXPW f, g;
    vf_check( f.setup( unit( "a0" ) ), "EXPW setup accepted" );
    (void)f.smooth( vf_real( "x" ) );
    vf_snapshot( &g, &f, sizeof( f ) );
    const real_t a = vf_fbits( "a" );
    const bool ok = inUnit( a );
    vf_check( f.setup( a ) == ok, "EXPW accepted exactly in (0,1)" );
    vf_assume( !ok );
    REJECT( f, g, "EXPW" );
}
ENTRY H_cfg_KLMN()
{
    smootherKLMN f, g;
    vf_check( f.setup( 1.0F, 2.0F, 3.0F ), "KLMN setup accepted" );
    (void)f.smooth( vf_real( "x" ) );
    vf_snapshot( &g, &f, sizeof( f ) );
    const real_t a = vf_fbits( "q" ), b = vf_fbits( "r" ), c = vf_fbits( "p" );
    const bool ok = ( a > 0.0F ) && ( b > 0.0F ) && ( c > 0.0F );
    vf_check( f.setup( a, b, c ) == ok, "KLMN accepted exactly for positive covariances" );
    vf_assume( !ok );
    REJECT( f, g, "KLMN" );
}
ENTRY H_cfg_DESF()
{
    smootherDESF f, g;
    vf_check( f.setup( 0.5F, 0.25F, 1U ), "DESF setup accepted" );
    (void)f.smooth( vf_real( "x" ) );
    vf_snapshot( &g, &f, sizeof( f ) );
    const real_t a = vf_fbits( "a" ), b = vf_fbits( "b" );
    const bool ok = inUnit( a ) && inUnit( b );
    vf_check( f.setup( a, b, 3U ) == ok, "DESF accepted exactly in (0,1)" );
    vf_assume( !ok );
    REJECT( f, g, "DESF" );
}
ENTRY H_cfg_ALNF()
{
    real_t *w = vf_floats( 2U, "w" ), *k = vf_floats( 2U, "k" ), *v = vf_floats( 2U, "v" ), *l = vf_floats( 2U, "l" );
    smootherALNF f, g;
    vf_check( f.setup( 0.5F, 0.0F, 2U, w, k, nullptr ), "ALNF setup accepted" );
    (void)f.smooth( vf_real( "x" ) );
    vf_snapshot( &g, &f, sizeof( f ) );
    vf_check( !f.setup( 0.5F, 0.0F, 2U, nullptr, l, nullptr ), "ALNF rejects a null window" );
    vf_check( !f.setup( 0.5F, 0.0F, 2U, v, nullptr, nullptr ), "ALNF rejects null weights" );
    vf_check( !f.setup( 0.5F, 0.0F, 0U, v, l, nullptr ), "ALNF rejects an empty window" );
    REJECT( f, g, "ALNF" );
    const real_t a = vf_fbits( "a" ), m = vf_fbits( "mu" );
    const bool ok = inUnit( a ) && ( m >= 0.0F ) && ( m < 1.0F );
    vf_check( f.setup( a, m, 2U, v, l, nullptr ) == ok, "ALNF accepted exactly for a rate in (0,1) and a momentum in [0,1)" );
    vf_assume( !ok );
    REJECT( f, g, "ALNF" );
}
/*---------------------------------------------------------------- constants pass through */
template<class F> static void dc( F &f, const char *what )
{
    const real_t c = vf_real( "c" );
    for ( int round = 0 ; round < 2 ; ++round ) {
        for ( int t = 0 ; t < 4 ; ++t ) vf_eq( f.smooth( c ), c, what );
        vf_check( f.reset(), "reset" );
    }
}
ENTRY H_dc_all()
{
    real_t w[ 3 ], k[ 3 ], z[ 3 ];
    smootherLPF1 a; vf_check( a.setup( unit( "a" ) ), "setup" ); dc( a, "LPF1 passes a constant through" );
    smootherLPF2 b; vf_check( b.setup( unit( "a" ) ), "setup" ); dc( b, "LPF2 passes a constant through" );
    smootherMWM1 c; vf_check( c.setup( w ), "setup" ); dc( c, "MWM1 passes a constant through" );
    smootherMWM2 d; vf_check( d.setup( w ), "setup" ); dc( d, "MWM2 passes a constant through" );
    smootherMOR1 e; vf_check( e.setup( w, unit( "a" ) ), "setup" ); dc( e, "MOR1 passes a constant through" );
    smootherMOR2 f; vf_check( f.setup( w, unit( "a" ) ), "setup" ); dc( f, "MOR2 passes a constant through" );
    smootherGMWF g; vf_check( g.setup( 1.0F, 0.5F, w, k ), "setup" ); dc( g, "GMWF passes a constant through" );
    smootherEXPW h; vf_check( h.setup( unit( "a" ) ), "setup" ); dc( h, "EXPW passes a constant through" );
    smootherKLMN i; vf_check( i.setup( 1.0F, 2.0F, 3.0F ), "setup" ); dc( i, "KLMN passes a constant through" );
    smootherALNF j; vf_check( j.setup( unit( "a" ), w, k ), "setup" ); dc( j, "ALNF passes a constant through" );
    smootherALNF l; vf_check( l.setup( unit( "a" ), unit( "m" ), w, k, z ), "setup" ); dc( l, "ALNF passes a constant through" );
}

static real_t positive( const char *n )
{
    const real_t v = vf_real( n );
    vf_assume( v > 0.0F );
    return v;
}
template <size_t N> static void dc_sizes()
{
    real_t w[ N ], k[ N ], z[ N ];
    smootherMWM1 c; vf_check( c.setup( w ), "setup" ); dc( c, "MWM1 of any size passes a constant through" );
    smootherMWM2 d; vf_check( d.setup( w ), "setup" ); dc( d, "MWM2 of any size passes a constant through" );
    smootherMOR1 e; vf_check( e.setup( w, unit( "a" ) ), "setup" ); dc( e, "MOR1 of any size passes a constant through" );
    smootherMOR2 f; vf_check( f.setup( w, unit( "a" ) ), "setup" ); dc( f, "MOR2 of any size passes a constant through" );
    smootherALNF j; vf_check( j.setup( unit( "a" ), w, k ), "setup" ); dc( j, "ALNF of any size passes a constant through" );
    smootherALNF l; vf_check( l.setup( unit( "a" ), unit( "m" ), w, k, z ), "setup" ); dc( l, "ALNF of any size passes a constant through" );
    static const real_t spread[ 4 ] = { 0.25F, 1.0F, 3.0F, 40.0F }, centre[ 5 ] = { -2.0F, -0.5F, 0.0F, 0.5F, 0.875F };
    for ( int i = 0 ; i < 4 ; ++i ) for ( int q = 0 ; q < 5 ; ++q ) {
        smootherGMWF g;
        vf_check( g.setup( spread[ i ], centre[ q ]*( ( centre[ q ] > 0.0F ) ? static_cast<real_t>( N ) : 1.0F ), w, k ), "setup" );
        dc( g, "GMWF of any size, spread and centre passes a constant through" );
    }
}
ENTRY H_dc_size_1() { dc_sizes<1>(); }
ENTRY H_dc_size_2() { dc_sizes<2>(); }
ENTRY H_dc_size_5() { dc_sizes<5>(); }
ENTRY H_dc_size_9() { dc_sizes<9>(); }
ENTRY H_dc_kalman()
{
    smootherKLMN i; vf_check( i.setup( positive( "q" ), positive( "r" ), positive( "p" ) ), "setup" ); dc( i, "KLMN passes a constant through" );
}
