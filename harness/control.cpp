/* Reference laws: numerical integration/derivation, RMS, transfer functions, PID. */
#include "vf.hpp"
#include <include/numa.hpp>
#include <include/rms.hpp>
#include <include/ltisys.hpp>
#include <include/pid.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;

static float rabs( float x ) { return ( x < 0.0F ) ? -x : x; }
static float clip( float x, float lo, float hi ) { return ( x < lo ) ? lo : ( ( x > hi ) ? hi : x ); }

/*---------------------------------------------------------------- nState */
static float intRule( integrationMethod m, float x0, float s, float s1, float s2, float dt )
{
    switch ( m ) {
        case INTEGRATION_RECTANGULAR: return x0 + s*dt;
        case INTEGRATION_TRAPEZOIDAL: return x0 + ( s + s1 )*dt/2.0F;
        case INTEGRATION_SIMPSON:     return x0 + ( s + 4.0F*s1 + s2 )*dt/6.0F;
        default:                      return x0 + ( 5.0F*s + 8.0F*s1 - s2 )*dt/12.0F;
    }
}
static float derRule( derivationMethod m, float s, float s1, float s2, float dt )
{
    switch ( m ) {
        case DERIVATION_2POINTS:  return ( s - s1 )/dt;
        case DERIVATION_BACKWARD: return ( 3.0F*s - 4.0F*s1 + s2 )/( 2.0F*dt );
        default:                  return ( 4.0F*s1 - 3.0F*s2 - s )/( 2.0F*dt );
    }
}
static void numaIntegrate( nState &st, const integrationMethod m, float x, float s1, float s2 )
{
    for ( int t = 0 ; t < 3 ; ++t ) {
        const float s = vf_real( "s" ), dt = vf_real( "dt" );
        const bool upd = ( 1 != t );
        x = intRule( m, x, s, s1, s2, dt );
        vf_eq( st.integrate( s, dt, upd ), x, "integrate() follows the selected rule" );
        if ( upd ) { s2 = s1; s1 = s; }
        vf_eq( st(), x, "the state value is the accumulated integral" );
    }
    const float r = vf_real( "r" );
    vf_assume( r > 0.0F && x > 0.0F );
    vf_eq( st*r, x*r, "state times number" );
    vf_eq( st/r, x/r, "state over number" );
    vf_eq( st + r, x + r, "state plus number" );
    vf_eq( st - r, x - r, "state minus number" );
    vf_eq( r*st, r*x, "number times state" );
    vf_eq( r/st, r/x, "number over state" );
    vf_eq( r + st, r + x, "number plus state" );
    vf_eq( r - st, r - x, "number minus state" );
}
ENTRY H_numa_integrate()
{
    const integrationMethod ms[] = { INTEGRATION_RECTANGULAR, INTEGRATION_TRAPEZOIDAL, INTEGRATION_SIMPSON, INTEGRATION_QUADRATIC };
    for ( int i = 0 ; i < 4 ; ++i ) {
        const float x = vf_real( "x0" ), s1 = vf_real( "s1" ), s2 = vf_real( "s2" );
        nState st( x, s1, s2 );
        st.setIntegrationMethod( ms[ i ] );
        numaIntegrate( st, ms[ i ], x, s1, s2 );
        const float y = vf_real( "x0" ), r1 = vf_real( "s1" ), r2 = vf_real( "s2" );
        st.init( y, r1, r2 );
        numaIntegrate( st, ms[ i ], y, r1, r2 );
        st.init();
        numaIntegrate( st, ms[ i ], 0.0F, 0.0F, 0.0F );
    }
    nState d;
    numaIntegrate( d, INTEGRATION_TRAPEZOIDAL, 0.0F, 0.0F, 0.0F );
}
static void numaDerive( nState &st, const derivationMethod m, float x, float s1, float s2 )
{
    for ( int t = 0 ; t < 3 ; ++t ) {
        const float s = vf_real( "s" ), dt = vf_real( "dt" );
        vf_assume( dt > 0.0F );
        const bool upd = ( 1 != t );
        vf_eq( st.derive( s, dt, upd ), derRule( m, s, s1, s2, dt ), "derive() follows the selected rule" );
        if ( upd ) { s2 = s1; s1 = s; }
        vf_eq( st(), x, "derive() leaves the integral value alone" );
    }
}
ENTRY H_numa_derive()
{
    const derivationMethod ms[] = { DERIVATION_2POINTS, DERIVATION_BACKWARD, DERIVATION_FORWARD };
    for ( int i = 0 ; i < 3 ; ++i ) {
        const float x = vf_real( "x0" ), s1 = vf_real( "s1" ), s2 = vf_real( "s2" );
        nState st( x, s1, s2 );
        st.setDerivationMethod( ms[ i ] );
        numaDerive( st, ms[ i ], x, s1, s2 );
    }
    nState d;
    numaDerive( d, DERIVATION_2POINTS, 0.0F, 0.0F, 0.0F );
}

/*---------------------------------------------------------------- rms */
ENTRY H_rms_law()
{
    for ( size_t n = 1U ; n <= 3U ; ++n ) {
        real_t *w = vf_floats( n, "window" );
        rms f;
        real_t h[ 4 ];
        vf_check( f.setup( w, n ), "rms setup accepted" );
        real_t l = 0.99F, a = 0.75F;
        if ( 2U == n ) {
            l = vf_real( "l" ); a = vf_real( "a" );
            vf_assume( ( l > 0.0F ) && ( l <= 1.0F ) && ( a > 0.0F ) && ( a <= 1.0F ) );
            vf_check( f.setParams( l, a ), "rms parameters accepted" );
        }
        real_t m = 0.0F, wk = 1.0F, y = 0.0F;
        for ( size_t t = 0U ; t < 3U ; ++t ) {
            const real_t x = vf_real( "x" );
            real_t s = 0.0F;
            if ( 0U == t ) m = x*x;
            wk = ( l*wk ) + 1.0F;
            m = m + ( ( ( x*x ) - m )/wk );
            const real_t root = ffmath::sqrt( m );
            if ( 0U == t ) for ( size_t i = 0U ; i < 4U ; ++i ) h[ i ] = root;
            for ( size_t i = 3U ; i > 0U ; --i ) h[ i ] = h[ i - 1U ];
            h[ 0 ] = root;
            for ( size_t i = 0U ; i < n ; ++i ) s += h[ i ];
            s /= static_cast<real_t>( n );
            y = ( 0U == t ) ? s : ( ( a*y ) + ( ( 1.0F - a )*s ) );
            vf_eq( f.update( x ), y, "rms: low-passed moving average of the root of the weighted mean square" );
        }
    }
}
ENTRY H_rms_params()
{
    real_t *w = vf_floats( 2U, "window" );
    rms f, g;
    vf_check( !f.setup( nullptr, 2U ), "rms setup rejects a null window" );
    vf_check( !f.setup( w, 0U ), "rms setup rejects an empty window" );
    vf_check( f.setup( w, 2U ), "rms setup accepted" );
    vf_snapshot( &g, &f, sizeof( rms ) );
    const real_t l = vf_fbits( "l" ), a = vf_fbits( "a" );
    const bool ok = ( l > 0.0F ) && ( l <= 1.0F ) && ( a > 0.0F ) && ( a <= 1.0F );
    const bool r = f.setParams( l, a );
    vf_check( r == ok, "rms parameters accepted exactly when both lie in (0,1]" );
    vf_assume( !ok );
    vf_same( &f, &g, sizeof( rms ), "rejected rms parameters leave the estimator unchanged" );
}

/*---------------------------------------------------------------- discrete systems */
template<size_t NB, size_t NA>
static void discreteLaw( const bool unitLeading )
{
    const size_t NX = ( NA > NB ) ? NA : NB;
    real_t *num = vf_floats( NB, "num" ), *den = vf_floats( NA, "den" ), *xs = vf_floats( NX, "x" );
    real_t b[ NB ], a[ NA ], u[ 8 ], y[ 8 ];
    const real_t a0 = unitLeading ? 1.0F : vf_real( "a0" );
    vf_assume( a0 != 0.0F );
    for ( size_t i = 0U ; i < NB ; ++i ) { num[ i ] = vf_real( "b" ); b[ i ] = num[ i ]/a0; }
    for ( size_t i = 0U ; i < NA ; ++i ) { den[ i ] = ( 0U == i ) ? a0 : vf_real( "a" ); a[ i ] = den[ i ]/a0; }
    discreteSystem sys( nullptr, nullptr, nullptr, 0U, 0U );
    vf_check( !sys.isInitialized(), "a system without storage is not initialised" );
    vf_eq( sys.excite( vf_real( "u" ) ), 0.0F, "an uninitialised system outputs zero" );
    vf_check( !sys.setInitStates(), "an uninitialised system rejects initial states" );
    vf_check( !sys.setSaturation( 0.0F, 1.0F ), "an uninitialised system rejects saturation" );
    vf_check( sys.setup( num, den, xs, NB, NA ), "discrete system setup accepted" );
    vf_check( LTISYS_TYPE_DISCRETE == sys.getType(), "type is discrete" );
    for ( int round = 0 ; round < 2 ; ++round ) {
        for ( size_t k = 0U ; k < 8U ; ++k ) { u[ k ] = y[ k ] = 0.0F; }
        for ( size_t t = 0U ; t < ( NX + 1U ) ; ++t ) {
            for ( size_t k = 7U ; k > 0U ; --k ) { u[ k ] = u[ k - 1U ]; y[ k ] = y[ k - 1U ]; }
            u[ 0 ] = vf_real( "u" );
            y[ 0 ] = 0.0F;
            for ( size_t i = 0U ; i < NB ; ++i ) y[ 0 ] += b[ i ]*u[ i ];
            for ( size_t i = 1U ; i < NA ; ++i ) y[ 0 ] -= a[ i ]*y[ i ];
            vf_eq( sys.excite( u[ 0 ] ), y[ 0 ], "discrete system output satisfies its difference equation" );
        }
        vf_check( sys.setInitStates(), "initial states cleared" );
    }
    /* explicit initial states: the stored delayed intermediate signal */
    real_t xi[ NX ], v = vf_real( "u" );
    const real_t u0 = v;
    for ( size_t i = 0U ; i < NX ; ++i ) xi[ i ] = vf_real( "xi" );
    vf_check( sys.setInitStates( xi ), "initial states accepted" );
    for ( size_t i = 1U ; i < NA ; ++i ) v -= a[ i ]*xi[ i - 1U ];
    real_t yy = b[ 0 ]*v;
    for ( size_t i = 1U ; i < NB ; ++i ) yy += b[ i ]*xi[ i - 1U ];
    vf_eq( sys.excite( u0 ), yy, "discrete system starts from the given initial states" );
}
ENTRY H_disc_11() { discreteLaw<1U,1U>( false ); }
ENTRY H_disc_12() { discreteLaw<1U,2U>( false ); }
ENTRY H_disc_21() { discreteLaw<2U,1U>( false ); }
ENTRY H_disc_22() { discreteLaw<2U,2U>( false ); }
ENTRY H_disc_31() { discreteLaw<3U,1U>( true ); }
ENTRY H_disc_13() { discreteLaw<1U,3U>( true ); }
ENTRY H_disc_23() { discreteLaw<2U,3U>( true ); }
ENTRY H_disc_32() { discreteLaw<3U,2U>( true ); }
ENTRY H_disc_33() { discreteLaw<3U,3U>( true ); }
ENTRY H_disc_24() { discreteLaw<2U,4U>( true ); }
ENTRY H_disc_normalise()
{
    real_t num[ 3 ], den[ 2 ], x[ 3 ], b[ 3 ], a[ 2 ];
    for ( int i = 0 ; i < 3 ; ++i ) b[ i ] = num[ i ] = vf_real( "b" );
    for ( int i = 0 ; i < 2 ; ++i ) a[ i ] = den[ i ] = vf_real( "a" );
    vf_assume( a[ 0 ] != 0.0F );
    discreteSystem s( num, den, x );
    for ( int i = 0 ; i < 3 ; ++i ) vf_eq( num[ i ], b[ i ]/a[ 0 ], "numerator normalised by the leading denominator coefficient" );
    for ( int i = 0 ; i < 2 ; ++i ) vf_eq( den[ i ], a[ i ]/a[ 0 ], "denominator normalised by its leading coefficient" );
}
ENTRY H_disc_tf()
{
    real_t nn[ 2 ], dd[ 2 ];
    for ( int i = 0 ; i < 2 ; ++i ) { nn[ i ] = vf_real( "b" ); dd[ i ] = vf_real( "a" ); }
    vf_assume( dd[ 0 ] != 0.0F );
    discreteTF<2,2> tf( nn, dd );
    discreteSystem s( tf );
    real_t u1 = 0.0F, y1 = 0.0F;
    for ( int t = 0 ; t < 3 ; ++t ) {
        const real_t u = vf_real( "u" );
        const real_t y = ( nn[ 0 ]*u + nn[ 1 ]*u1 - dd[ 1 ]*y1 )/dd[ 0 ];
        vf_eq( s.excite( u ), y, "a transfer-function object drives the same difference equation" );
        u1 = u; y1 = y;
    }
}
ENTRY H_disc_fir()
{
    for ( size_t n = 1U ; n <= 4U ; ++n ) {
        real_t *w = vf_floats( n, "w" ), *c = vf_floats( n, "c" ), *w2 = vf_floats( n, "w2" );
        real_t u[ 5 ] = { 0.0F, 0.0F, 0.0F, 0.0F, 0.0F };
        for ( size_t i = 0U ; i < n ; ++i ) { u[ i ] = w[ i ] = w2[ i ] = vf_real( "w" ); c[ i ] = vf_real( "c" ); }
        for ( int t = 0 ; t < 3 ; ++t ) {
            real_t y = 0.0F, z = 0.0F;
            for ( size_t i = 4U ; i > 0U ; --i ) u[ i ] = u[ i - 1U ];
            u[ 0 ] = vf_real( "u" );
            for ( size_t i = 0U ; i < n ; ++i ) { y += c[ i ]*u[ i ]; z += u[ i ]; }
            vf_eq( discreteSystem::updateFIR( w, n, u[ 0 ], c ), y, "FIR output is the coefficient-weighted window" );
            vf_eq( discreteSystem::updateFIR( w2, n, u[ 0 ] ), z, "FIR without coefficients is the window sum" );
            for ( size_t i = 0U ; i < n ; ++i ) vf_eq( w[ i ], u[ i ], "FIR window holds the last samples" );
        }
    }
}

/*---------------------------------------------------------------- continuous systems */
struct rstate { real_t x, s1, s2; };
template<size_t N>
static void continuousLaw( const integrationMethod m, const bool unitLeading, const int steps )
{
    real_t *num = vf_floats( N + 1U, "num" ), *den = vf_floats( N + 1U, "den" );
    nState xs[ N ];
    real_t b[ N + 1U ], a[ N + 1U ];
    rstate r[ N ];
    const real_t a0 = unitLeading ? 1.0F : vf_real( "a0" );
    const real_t dt = vf_real( "dt" );
    vf_assume( a0 != 0.0F );
    for ( size_t i = 0U ; i <= N ; ++i ) {
        num[ i ] = vf_real( "b" ); b[ i ] = num[ i ]/a0;
        den[ i ] = ( 0U == i ) ? a0 : vf_real( "a" ); a[ i ] = den[ i ]/a0;
    }
    continuousSystem sys( nullptr, nullptr, nullptr, 0U, 0.0F );
    vf_check( !sys.isInitialized(), "a system without storage is not initialised" );
    vf_eq( sys.excite( vf_real( "u" ) ), 0.0F, "an uninitialised system outputs zero" );
    vf_check( !sys.setIntegrationMethod( m ), "an uninitialised system rejects an integration method" );
    for ( size_t i = 0U ; i < N ; ++i ) xs[ i ].init( vf_real( "left over" ), vf_real( "left over" ), vf_real( "left over" ) );
    vf_check( sys.setup( num, den, xs, N, dt ), "continuous system setup accepted" );
    vf_check( LTISYS_TYPE_CONTINUOUS == sys.getType(), "type is continuous" );
    if ( INTEGRATION_TRAPEZOIDAL != m ) vf_check( sys.setIntegrationMethod( m ), "integration method accepted" );
    for ( int round = 0 ; round < 2 ; ++round ) {
        if ( 0 == round ) {
            for ( size_t i = 0U ; i < N ; ++i ) { r[ i ].x = r[ i ].s1 = r[ i ].s2 = 0.0F; }
        }
        else {
            real_t xi[ N ];
            for ( size_t i = 0U ; i < N ; ++i ) { xi[ i ] = r[ i ].x = r[ i ].s1 = r[ i ].s2 = vf_real( "xi" ); }
            vf_check( sys.setInitStates( xi ), "initial states accepted" );
        }
        for ( int t = 0 ; t < steps ; ++t ) {
            const real_t u = vf_real( "u" );
            real_t dx[ N ], y = b[ 0 ]*u;
            dx[ 0 ] = u;
            for ( size_t i = 0U ; i < N ; ++i ) dx[ 0 ] -= a[ i + 1U ]*r[ i ].x;
            for ( size_t i = 1U ; i < N ; ++i ) dx[ i ] = r[ i - 1U ].x;
            for ( size_t i = 0U ; i < N ; ++i ) {
                r[ i ].x = intRule( m, r[ i ].x, dx[ i ], r[ i ].s1, r[ i ].s2, dt );
                r[ i ].s2 = r[ i ].s1; r[ i ].s1 = dx[ i ];
                y += ( b[ i + 1U ] - a[ i + 1U ]*b[ 0 ] )*r[ i ].x;
            }
            vf_eq( sys.excite( u ), y, "continuous system output follows its state equations" );
        }
    }
    vf_check( sys.setInitStates(), "initial states cleared" );
    vf_eq( sys.excite( 0.0F ), 0.0F, "a system at rest with no input stays at zero" );
}
ENTRY H_cont_1_rect() { continuousLaw<1U>( INTEGRATION_RECTANGULAR, false, 2 ); }
ENTRY H_cont_1_trap() { continuousLaw<1U>( INTEGRATION_TRAPEZOIDAL, false, 2 ); }
ENTRY H_cont_1_simp() { continuousLaw<1U>( INTEGRATION_SIMPSON, false, 3 ); }
ENTRY H_cont_2_rect() { continuousLaw<2U>( INTEGRATION_RECTANGULAR, false, 2 ); }
ENTRY H_cont_2_trap() { continuousLaw<2U>( INTEGRATION_TRAPEZOIDAL, true, 2 ); }
ENTRY H_cont_3_trap() { continuousLaw<3U>( INTEGRATION_TRAPEZOIDAL, true, 2 ); }
ENTRY H_cont_3_rect() { continuousLaw<3U>( INTEGRATION_RECTANGULAR, true, 2 ); }
ENTRY H_cont_tf()
{
    real_t nn[ 2 ], dd[ 2 ];
    for ( int i = 0 ; i < 2 ; ++i ) { nn[ i ] = vf_real( "b" ); dd[ i ] = vf_real( "a" ); }
    vf_assume( dd[ 0 ] != 0.0F );
    const real_t dt = vf_real( "dt" );
    continuousTF<1> tf( nn, dd );
    continuousSystem s( tf, dt );
    const real_t u = vf_real( "u" ), b0 = nn[ 0 ]/dd[ 0 ], b1 = nn[ 1 ]/dd[ 0 ], a1 = dd[ 1 ]/dd[ 0 ];
    vf_eq( s.excite( u ), b0*u + ( b1 - a1*b0 )*( u*dt/2.0F ), "a transfer-function object drives the same state equations" );
}

/*---------------------------------------------------------------- saturation and delay */
ENTRY H_lti_saturation()
{
    real_t num[ 1 ], den[ 1 ], x[ 1 ];
    const real_t g = vf_real( "gain" );
    num[ 0 ] = g; den[ 0 ] = 1.0F;
    discreteSystem s( num, den, x ), t( num, den, x );
    const real_t u = vf_real( "u" );
    vf_eq( s.excite( u ), g*u, "output is unlimited until limits are given" );
    const real_t lo = vf_real( "lo" ), hi = vf_real( "hi" );
    vf_snapshot( &t, &s, sizeof( discreteSystem ) );
    const bool r = s.setSaturation( lo, hi );
    vf_check( r == ( hi > lo ), "limits accepted exactly when max > min" );
    if ( hi > lo ) {
        for ( int k = 0 ; k < 2 ; ++k ) {
            const real_t v = vf_real( "v" );
            const real_t y = s.excite( v );
            vf_eq( y, clip( g*v, lo, hi ), "output is the clipped response" );
            vf_check( ( y >= lo ) && ( y <= hi ), "output within limits" );
        }
    }
    else {
        vf_same( &s, &t, sizeof( discreteSystem ), "rejected limits leave the system unchanged" );
    }
}
ENTRY H_lti_saturation_any_state()
{
    real_t num[ 3 ], den[ 3 ], x[ 3 ], cn[ 3 ], cd[ 3 ];
    nState xc[ 2 ];
    for ( int i = 0 ; i < 3 ; ++i ) { num[ i ] = vf_real( "b" ); den[ i ] = vf_real( "a" ); cn[ i ] = vf_real( "b" ); cd[ i ] = vf_real( "a" ); }
    vf_assume( ( den[ 0 ] != 0.0F ) && ( cd[ 0 ] != 0.0F ) );
    discreteSystem s( num, den, x );
    continuousSystem c( cn, cd, xc, 2U, vf_real( "dt" ) );
    const real_t lo = vf_real( "lo" ), hi = vf_real( "hi" );
    vf_assume( hi > lo );
    for ( int i = 0 ; i < 3 ; ++i ) x[ i ] = vf_real( "state" );
    xc[ 0 ].init( vf_real( "x" ), vf_real( "x" ), vf_real( "x" ) );
    xc[ 1 ].init( vf_real( "x" ), vf_real( "x" ), vf_real( "x" ) );
    vf_check( s.setSaturation( lo, hi ) && c.setSaturation( lo, hi ), "limits accepted" );
    const real_t y = s.excite( vf_real( "u" ) ), z = c.excite( vf_real( "u" ) );
    vf_check( ( y >= lo ) && ( y <= hi ), "discrete output within limits from any state" );
    vf_check( ( z >= lo ) && ( z <= hi ), "continuous output within limits from any state" );
}
ENTRY H_lti_delay()
{
    for ( size_t n = 1U ; n <= 4U ; ++n ) {
        real_t num[ 1 ], den[ 1 ], x[ 1 ];
        const real_t g = vf_real( "gain" );
        num[ 0 ] = g; den[ 0 ] = 1.0F;
        discreteSystem s( num, den, x );
        real_t *w = vf_floats( n, "delay" );
        const real_t init = vf_real( "init" );
        vf_check( !s.setDelay( nullptr, n, init ), "a null delay window is rejected" );
        vf_check( !s.setDelay( w, 0U, init ), "an empty delay window is rejected" );
        vf_check( s.setDelay( w, n, init ), "delay accepted" );
        real_t h[ 12 ];
        for ( int i = 0 ; i < 12 ; ++i ) h[ i ] = init;
        for ( size_t t = 0U ; t < n + 3U ; ++t ) {
            for ( int i = 11 ; i > 0 ; --i ) h[ i ] = h[ i - 1 ];
            h[ 0 ] = vf_real( "u" );
            vf_eq( s.excite( h[ 0 ] ), g*h[ n - 1U ], "an n-element delay window delays the input by n-1 samples" );
        }
    }
}
template<size_t N> static void tdelay()
{
    const real_t init = vf_real( "init" );
    transportDelay<N> d( init ), z;
    real_t h[ 12 ], k[ 12 ];
    for ( int i = 0 ; i < 12 ; ++i ) { h[ i ] = init; k[ i ] = 0.0F; }
    for ( size_t t = 0U ; t < N + 3U ; ++t ) {
        for ( int i = 11 ; i > 0 ; --i ) { h[ i ] = h[ i - 1 ]; k[ i ] = k[ i - 1 ]; }
        k[ 0 ] = h[ 0 ] = vf_real( "u" );
        vf_eq( d( h[ 0 ] ), h[ N ], "transportDelay<N> outputs the input of N samples ago" );
        vf_eq( z( k[ 0 ] ), k[ N ], "transportDelay<N> starts from zero by default" );
    }
}
/* the number of samples of a delay is its time divided by the step, to the nearest one */
ENTRY H_lti_delay_time()
{
    const struct { float t, dt; size_t n; } c[] = {
        { 1.0F, 0.25F, 4U }, { 1.0F, 0.3125F, 3U }, { 1.0F, 0.375F, 3U }, { 1.0F, 0.75F, 1U }, { 2.5F, 1.0F, 3U }, { 2.4375F, 1.0F, 2U },
        { 0.25F, 1.0F, 0U }, { 0.5F, 1.0F, 1U }, { 2.5F, 0.01F, 250U }, { 7.0F, 0.1F, 70U }, { 100.0F, 0.125F, 800U }, { 3.0e5F, 1.0F, 300000U },
    };
    for ( size_t i = 0U ; i < sizeof( c )/sizeof( c[ 0 ] ) ; ++i ) vf_check( delayFromTime( c[ i ].t, c[ i ].dt ) == c[ i ].n, "samples of a delay" );
}
ENTRY H_lti_transport() { tdelay<1U>(); tdelay<2U>(); tdelay<3U>(); tdelay<5U>(); }
ENTRY H_lti_setup()
{
    real_t num[ 3 ], den[ 3 ], x[ 3 ];
    nState xc[ 2 ];
    for ( int i = 0 ; i < 3 ; ++i ) { num[ i ] = vf_real( "b" ); den[ i ] = vf_real( "a" ); }
    vf_assume( den[ 0 ] != 0.0F );
    for ( int bad = 0 ; bad < 5 ; ++bad ) {
        real_t *s = vf_floats( 3U, "keep" ), *d = vf_floats( 3U, "keepden" ), *e = vf_floats( 3U, "keepx" );
        for ( int i = 0 ; i < 3 ; ++i ) { s[ i ] = vf_real( "b" ); d[ i ] = vf_real( "a" ); e[ i ] = vf_real( "x" ); }
        vf_assume( d[ 0 ] != 0.0F );
        discreteSystem sys( s, d, e, 3U, 3U ), cpy( s, d, e, 3U, 3U );
        const bool ok = sys.setup( ( 0 == bad ) ? nullptr : num, ( 1 == bad ) ? nullptr : den, ( 2 == bad ) ? nullptr : x,
                                   ( 3 == bad ) ? 0U : 3U, ( 4 == bad ) ? 0U : 3U );
        vf_check( !ok, "discrete setup with missing storage is rejected" );
        vf_same( &sys, &cpy, sizeof( sys ), "a rejected discrete setup leaves the system unchanged" );
    }
    for ( int bad = 0 ; bad < 4 ; ++bad ) {
        real_t s[ 3 ], d[ 3 ];
        nState e[ 2 ];
        const real_t dt = vf_real( "dt" );
        for ( int i = 0 ; i < 3 ; ++i ) { s[ i ] = vf_real( "b" ); d[ i ] = ( 0 == i ) ? 1.0F : vf_real( "a" ); }
        continuousSystem sys( s, d, e, 2U, dt ), cpy( s, d, e, 2U, dt );
        const bool ok = sys.setup( ( 0 == bad ) ? nullptr : num, ( 1 == bad ) ? nullptr : den, ( 2 == bad ) ? nullptr : xc,
                                   ( 3 == bad ) ? 0U : 2U, 0.1F );
        vf_check( !ok, "continuous setup with missing storage is rejected" );
        vf_same( &sys, &cpy, sizeof( sys ), "a rejected continuous setup leaves the system unchanged" );
    }
}
/*---------------------------------------------------------------- long windows and histories */
static real_t sig( const int t ) { return static_cast<real_t>( ( ( t*5 ) % 13 ) - 6 ); }
ENTRY H_disc_large_fir()
{
    constexpr int n = 300;
    real_t *w = vf_floats( n, "w" ), *c = vf_floats( n, "c" ), *z = vf_floats( n, "z" );
    for ( int i = 0 ; i < n ; ++i ) { w[ i ] = z[ i ] = 0.0F; c[ i ] = static_cast<real_t>( 2*i + 1 ); }
    for ( int t = 0 ; t < n ; ++t ) {
        vf_eq( discreteSystem::updateFIR( w, static_cast<size_t>( n ), ( 0 == t ) ? 1.0F : 0.0F, c ), static_cast<real_t>( 2*t + 1 ), "impulse response of a long FIR" );
    }
    for ( int t = 0 ; t < 3 ; ++t ) vf_eq( discreteSystem::updateFIR( z, static_cast<size_t>( n ), 1.0F ), static_cast<real_t>( t + 1 ), "window sum of a long FIR" );
    vf_eq( w[ n - 1 ], 1.0F, "last element of a long window" );
}
ENTRY H_disc_large_system()
{
    constexpr int n = 290;
    real_t *num = vf_floats( n, "num" ), *den = vf_floats( n, "den" ), *x = vf_floats( n, "x" );
    for ( int i = 0 ; i < n ; ++i ) { num[ i ] = static_cast<real_t>( i + 1 ); den[ i ] = 0.0F; x[ i ] = 5.0F; }
    den[ 0 ] = 2.0F;
    den[ n - 1 ] = 2.0F;     /* y(k) = sum b(i) u(k-i)/2 - y(k-(n-1)) */
    discreteSystem s( num, den, x, static_cast<size_t>( n ), static_cast<size_t>( n ) );
    for ( int t = 0 ; t < n + 4 ; ++t ) {
        real_t want = ( t < n ) ? ( static_cast<real_t>( t + 1 )/2.0F ) : 0.0F;
        if ( t >= n - 1 ) want -= static_cast<real_t>( t - ( n - 1 ) + 1 )/2.0F;
        vf_eq( s.excite( ( 0 == t ) ? 1.0F : 0.0F ), want, "impulse response of a system of high order" );
    }
    vf_check( s.setInitStates(), "states cleared" );
    for ( int i = 0 ; i < n ; ++i ) vf_eq( x[ i ], 0.0F, "every state of a system of high order is cleared" );
    real_t *xi = vf_floats( n, "xi" );
    for ( int i = 0 ; i < n ; ++i ) xi[ i ] = static_cast<real_t>( i );
    vf_check( s.setInitStates( xi ), "states given" );
    for ( int i = 0 ; i < n ; ++i ) vf_eq( x[ i ], static_cast<real_t>( i ), "every state of a system of high order is set" );
}
/* 400 samples of y(k) = u(k) + 2u(k-1) - y(k-1)/2 */
ENTRY H_disc_long()
{
    real_t num[ 2 ] = { 1.0F, 2.0F }, den[ 2 ] = { 1.0F, 0.5F }, x[ 2 ];
    discreteSystem s( num, den, x );
    real_t u1 = 0.0F, y1 = 0.0F;
    for ( int t = 0 ; t < 400 ; ++t ) {
        const real_t u = sig( t ), y = u + 2.0F*u1 - 0.5F*y1;
        vf_eq( s.excite( u ), y, "the difference equation over a long history" );
        u1 = u; y1 = y;
    }
}
ENTRY H_cont_long()
{
    real_t num[ 2 ] = { 0.0F, 1.0F }, den[ 2 ] = { 1.0F, 1.0F };
    nState xs[ 1 ];
    continuousSystem s( num, den, xs, 1U, 0.5F );
    vf_check( s.setIntegrationMethod( INTEGRATION_RECTANGULAR ), "rule accepted" );
    real_t x = 0.0F;
    for ( int t = 0 ; t < 400 ; ++t ) {
        const real_t u = sig( t );
        x = x + 0.5F*( u - x );
        vf_eq( s.excite( u ), x, "the state equation over a long history" );
    }
}
ENTRY H_lti_large_delay()
{
    constexpr int n = 300;
    real_t num[ 1 ] = { 2.0F }, den[ 1 ] = { 1.0F }, x[ 1 ];
    discreteSystem s( num, den, x );
    real_t *w = vf_floats( n, "delay" );
    vf_check( s.setDelay( w, static_cast<size_t>( n ), 3.0F ), "long delay accepted" );
    for ( int t = 0 ; t < n + 300 ; ++t ) {
        vf_eq( s.excite( static_cast<real_t>( t ) ), ( t < n - 1 ) ? 6.0F : static_cast<real_t>( 2*( t - ( n - 1 ) ) ), "a long delay window" );
    }
}
ENTRY H_lti_large_transport()
{
    transportDelay<300> d( 4.0F );
    for ( int t = 0 ; t < 700 ; ++t ) {
        vf_eq( d( static_cast<real_t>( t ) ), ( t < 300 ) ? 4.0F : static_cast<real_t>( t - 300 ), "a long transport delay" );
    }
}
/* delay and limits together: the delayed input drives the system, the result is clipped */
ENTRY H_lti_delay_limits()
{
    real_t num[ 2 ], den[ 2 ], x[ 2 ], b0 = vf_real( "b0" ), b1 = vf_real( "b1" ), a1 = vf_real( "a1" );
    num[ 0 ] = b0; num[ 1 ] = b1; den[ 0 ] = 1.0F; den[ 1 ] = a1;
    discreteSystem s( num, den, x );
    real_t *w = vf_floats( 2U, "delay" );
    const real_t init = vf_real( "init" );
    vf_check( s.setDelay( w, 2U, init ), "delay accepted" );
    vf_check( s.setSaturation( -1.0F, 2.0F ), "limits accepted" );
    const real_t u0 = vf_real( "u0" ), u1 = vf_real( "u1" ), u2 = vf_real( "u2" );
    /* the limits act on the output only, not on the recursion */
    const real_t y0 = b0*init, y1 = b0*u0 + b1*init - a1*y0, y2 = b0*u1 + b1*u0 - a1*y1;
    vf_eq( s.excite( u0 ), clip( y0, -1.0F, 2.0F ), "delayed and clipped" );
    vf_eq( s.excite( u1 ), clip( y1, -1.0F, 2.0F ), "delayed and clipped" );
    vf_eq( s.excite( u2 ), clip( y2, -1.0F, 2.0F ), "delayed and clipped" );
}
ENTRY H_lti_delay_continuous()
{
    real_t num[ 2 ], den[ 2 ];
    nState xs[ 1 ];
    const real_t b0 = vf_real( "b0" ), b1 = vf_real( "b1" ), a1 = vf_real( "a1" );
    num[ 0 ] = b0; num[ 1 ] = b1; den[ 0 ] = 1.0F; den[ 1 ] = a1;
    const real_t dt = vf_real( "dt" ), init = vf_real( "init" );
    continuousSystem s( num, den, xs, 1U, dt );
    vf_check( s.setIntegrationMethod( INTEGRATION_RECTANGULAR ), "rule accepted" );
    real_t *w = vf_floats( 2U, "delay" );
    vf_check( s.setDelay( w, 2U, init ), "delay accepted" );
    real_t in = init, x = 0.0F;
    for ( int t = 0 ; t < 3 ; ++t ) {
        const real_t u = vf_real( "u" );
        x = x + dt*( in - a1*x );
        vf_eq( s.excite( u ), b0*in + ( b1 - a1*b0 )*x, "the delayed input drives the continuous system" );
        in = u;
    }
}
/* integration and derivation share the stored samples; rules may change at any time */
ENTRY H_numa_mixed()
{
    const integrationMethod im[] = { INTEGRATION_RECTANGULAR, INTEGRATION_TRAPEZOIDAL, INTEGRATION_SIMPSON, INTEGRATION_QUADRATIC };
    const derivationMethod dm[] = { DERIVATION_2POINTS, DERIVATION_BACKWARD, DERIVATION_FORWARD };
    float x = vf_real( "x0" ), s1 = vf_real( "s1" ), s2 = vf_real( "s2" );
    nState st( x, s1, s2 );
    for ( int i = 0 ; i < 4 ; ++i ) {
        for ( int j = 0 ; j < 3 ; ++j ) {
            const float s = vf_real( "s" ), r = vf_real( "r" ), dt = vf_real( "dt" );
            vf_assume( dt > 0.0F );
            st.setIntegrationMethod( im[ i ] );
            st.setDerivationMethod( dm[ j ] );
            x = intRule( im[ i ], x, s, s1, s2, dt );
            vf_eq( st.integrate( s, dt ), x, "integrate() after a change of rules" );
            s2 = s1; s1 = s;
            vf_eq( st.derive( r, dt ), derRule( dm[ j ], r, s1, s2, dt ), "derive() after integrate()" );
            s2 = s1; s1 = r;
            vf_eq( st(), x, "the integral value" );
        }
        if ( 1 == i ) { s1 = vf_real( "p1" ); s2 = vf_real( "p2" ); x = vf_real( "p0" ); st.init( x, s1, s2 ); }
    }
}
/* a window beyond 256 elements */
ENTRY H_rms_law_large()
{
    constexpr int n = 300;
    real_t *w = vf_floats( n, "window" );
    rms f;
    vf_check( f.setup( w, static_cast<size_t>( n ) ), "rms setup accepted" );
    vf_check( f.setParams( 0.5F, 0.5F ), "rms parameters accepted" );
    const real_t r0 = ffmath::sqrt( 4.0F );
    real_t m = 0.0F, wk = 1.0F, y = 0.0F, sum = static_cast<real_t>( n )*r0;
    for ( int t = 0 ; t < 12 ; ++t ) {
        const real_t x = ( 0 == t ) ? 2.0F : static_cast<real_t>( t );
        if ( 0 == t ) m = x*x;
        wk = ( 0.5F*wk ) + 1.0F;
        m = m + ( ( ( x*x ) - m )/wk );
        sum += ffmath::sqrt( m ) - r0;
        const real_t s = sum/static_cast<real_t>( n );
        y = ( 0 == t ) ? s : ( 0.5F*y + 0.5F*s );
        vf_eq( f.update( x ), y, "rms over a long window" );
    }
}
/* parameters changed while the estimator is running: nothing starts over */
ENTRY H_rms_law_retuned()
{
    real_t *w = vf_floats( 3U, "window" );
    rms f;
    vf_check( f.setup( w, 3U ), "rms setup accepted" );
    real_t l = 0.99F, a = 0.75F, m = 0.0F, wk = 1.0F, y = 0.0F, h[ 3 ];
    for ( int t = 0 ; t < 6 ; ++t ) {
        const real_t x = ( t < 2 ) ? vf_real( "x" ) : static_cast<real_t>( t );
        if ( 2 == t ) { l = 0.5F; a = 0.25F; vf_check( f.setParams( l, a ), "parameters accepted" ); }
        if ( 3 == t ) vf_check( !f.setParams( 0.0F, 0.5F ) && !f.setParams( 0.5F, 2.0F ), "parameters rejected" );
        if ( 4 == t ) { l = 1.0F; a = 1.0F; vf_check( f.setParams( l, a ), "parameters accepted" ); }
        if ( 5 == t ) { l = 0.125F; a = 0.5F; vf_check( f.setParams( l, a ), "parameters accepted" ); }
        if ( 0 == t ) m = x*x;
        wk = ( l*wk ) + 1.0F;
        m = m + ( ( ( x*x ) - m )/wk );
        const real_t root = ffmath::sqrt( m );
        if ( 0 == t ) { h[ 0 ] = h[ 1 ] = h[ 2 ] = root; }
        h[ 2 ] = h[ 1 ]; h[ 1 ] = h[ 0 ]; h[ 0 ] = root;
        const real_t s = ( h[ 0 ] + h[ 1 ] + h[ 2 ] )/3.0F;
        if ( 0 == t ) y = s;
        y = s + ( a*( y - s ) );
        vf_eq( f.update( x ), y, "rms after a change of parameters" );
    }
    vf_check( f.setup( w, 2U ), "set up again" );
    rms g;
    real_t *v = vf_floats( 2U, "other window" );
    vf_check( g.setup( v, 2U ), "a new one" );
    for ( int t = 0 ; t < 3 ; ++t ) { const real_t x = ( 0 == t ) ? vf_real( "x" ) : static_cast<real_t>( 4 - t ); vf_eq( f.update( x ), g.update( x ), "an estimator set up again is as new" ); }
}
/* look-ahead calls leave the history alone, whatever the rule */
ENTRY H_numa_peek()
{
    const integrationMethod im[] = { INTEGRATION_RECTANGULAR, INTEGRATION_TRAPEZOIDAL, INTEGRATION_SIMPSON, INTEGRATION_QUADRATIC };
    const derivationMethod dm[] = { DERIVATION_2POINTS, DERIVATION_BACKWARD, DERIVATION_FORWARD };
    for ( int i = 0 ; i < 4 ; ++i ) {
        for ( int j = 0 ; j < 3 ; ++j ) {
            float x = vf_real( "x0" );
            const float s1 = vf_real( "s1" ), s2 = vf_real( "s2" ), s = vf_real( "s" ), dt = vf_real( "dt" );
            vf_assume( dt > 0.0F );
            nState st( x, s1, s2 );
            st.setIntegrationMethod( im[ i ] );
            st.setDerivationMethod( dm[ j ] );
            for ( int k = 0 ; k < 4 ; ++k ) {
                x = intRule( im[ i ], x, s, s1, s2, dt );
                vf_eq( st.integrate( s, dt, false ), x, "integrate() without update" );
                st.setIntegrationMethod( im[ k ] );
                x = intRule( im[ k ], x, 2.0F, s1, s2, dt );
                vf_eq( st.integrate( 2.0F, dt, false ), x, "integrate() without update leaves the history alone" );
                vf_eq( st.derive( s, dt, false ), derRule( dm[ j ], s, s1, s2, dt ), "derive() without update" );
                st.setDerivationMethod( dm[ k%3 ] );
                vf_eq( st.derive( 3.0F, dt, false ), derRule( dm[ k%3 ], 3.0F, s1, s2, dt ), "derive() without update leaves the history alone" );
                st.setIntegrationMethod( im[ i ] );
                st.setDerivationMethod( dm[ j ] );
            }
        }
    }
}
/* systems of higher order */
static void continuousHigh( const size_t N, const integrationMethod m )
{
    real_t num[ 13 ], den[ 13 ], b[ 13 ], a[ 13 ], dx[ 12 ];
    nState xs[ 12 ];
    rstate r[ 12 ];
    const real_t dt = 0.5F;
    for ( size_t i = 0U ; i <= N ; ++i ) {
        num[ i ] = ( i == N ) ? vf_real( "b" ) : static_cast<real_t>( ( i*5U )%7U ) - 2.0F; den[ i ] = ( 0U == i ) ? 2.0F : static_cast<real_t>( ( i*3U )%5U ) + 1.0F;
        b[ i ] = num[ i ]/2.0F; a[ i ] = den[ i ]/2.0F;
    }
    continuousSystem sys( num, den, xs, N, dt );
    vf_check( sys.setIntegrationMethod( m ), "integration method accepted" );
    real_t xi[ 12 ];
    for ( size_t i = 0U ; i < N ; ++i ) { xi[ i ] = r[ i ].x = r[ i ].s1 = r[ i ].s2 = static_cast<real_t>( i ) - 2.0F; }
    vf_check( sys.setInitStates( xi ), "initial states accepted" );
    for ( int t = 0 ; t < 4 ; ++t ) {
        const real_t u = vf_real( "u" );
        real_t y = b[ 0 ]*u;
        dx[ 0 ] = u;
        for ( size_t i = 0U ; i < N ; ++i ) dx[ 0 ] -= a[ i + 1U ]*r[ i ].x;
        for ( size_t i = 1U ; i < N ; ++i ) dx[ i ] = r[ i - 1U ].x;
        for ( size_t i = 0U ; i < N ; ++i ) {
            r[ i ].x = intRule( m, r[ i ].x, dx[ i ], r[ i ].s1, r[ i ].s2, dt );
            r[ i ].s2 = r[ i ].s1; r[ i ].s1 = dx[ i ];
            y += ( b[ i + 1U ] - a[ i + 1U ]*b[ 0 ] )*r[ i ].x;
        }
        vf_eq( sys.excite( u ), y, "a system of higher order follows its state equations" );
    }
    vf_check( sys.setInitStates(), "initial states cleared" );
    for ( size_t i = 0U ; i < N ; ++i ) vf_eq( xs[ i ](), 0.0F, "every state is cleared" );
}
ENTRY H_cont_high_5() { continuousHigh( 5U, INTEGRATION_SIMPSON ); continuousHigh( 4U, INTEGRATION_RECTANGULAR ); }
ENTRY H_cont_high_12() { continuousHigh( 12U, INTEGRATION_RECTANGULAR ); continuousHigh( 12U, INTEGRATION_TRAPEZOIDAL ); continuousHigh( 9U, INTEGRATION_SIMPSON ); }
/* a system in use that is set up again, with another order */
ENTRY H_cont_again()
{
    real_t n3[ 4 ] = { 1.0F, 2.0F, 3.0F, 4.0F }, d3[ 4 ] = { 2.0F, 1.0F, 4.0F, 6.0F }, n1[ 2 ] = { 1.0F, 3.0F }, d1[ 2 ] = { 4.0F, 1.0F }, n2[ 2 ] = { 1.0F, 3.0F }, d2[ 2 ] = { 4.0F, 1.0F };
    nState xs[ 3 ], ys[ 1 ];
    continuousSystem s( n3, d3, xs, 3U, 0.25F ), t( n2, d2, ys, 1U, 0.5F );
    for ( int k = 0 ; k < 3 ; ++k ) (void)s.excite( vf_real( "earlier" ) );
    vf_check( s.setup( n1, d1, xs, 1U, 0.5F ), "set up again" );
    for ( int k = 0 ; k < 4 ; ++k ) { const real_t u = vf_real( "u" ); vf_eq( s.excite( u ), t.excite( u ), "a system set up again is as new" ); }
}
ENTRY H_disc_again()
{
    real_t n3[ 3 ] = { 1.0F, 2.0F, 3.0F }, d3[ 4 ] = { 2.0F, 1.0F, 4.0F, 6.0F }, n1[ 2 ] = { 1.0F, 3.0F }, d1[ 2 ] = { 4.0F, 1.0F }, n2[ 2 ] = { 1.0F, 3.0F }, d2[ 2 ] = { 4.0F, 1.0F };
    real_t *xs = vf_floats( 4U, "x" ), *ys = vf_floats( 2U, "y" );
    discreteSystem s( n3, d3, xs, 3U, 4U ), t( n2, d2, ys, 2U, 2U );
    for ( int k = 0 ; k < 3 ; ++k ) (void)s.excite( vf_real( "earlier" ) );
    vf_check( s.setup( n1, d1, xs, 2U, 2U ), "set up again" );
    for ( int k = 0 ; k < 4 ; ++k ) { const real_t u = vf_real( "u" ); vf_eq( s.excite( u ), t.excite( u ), "a system set up again is as new" ); }
}
/* a system without storage accepts no options */
ENTRY H_lti_uninitialised()
{
    real_t *w = vf_floats( 3U, "delay" );
    discreteSystem d( nullptr, nullptr, nullptr, 0U, 0U ), d0( nullptr, nullptr, nullptr, 0U, 0U );
    continuousSystem c( nullptr, nullptr, nullptr, 0U, 1.0F ), c0( nullptr, nullptr, nullptr, 0U, 1.0F );
    const real_t lo = vf_real( "lo" ), hi = vf_real( "hi" );
    for ( size_t i = 0U ; i < 3U ; ++i ) w[ i ] = 7.0F;
    vf_snapshot( &d0, &d, sizeof( d ) );
    vf_snapshot( &c0, &c, sizeof( c ) );
    vf_check( !d.setSaturation( lo, hi ) && !c.setSaturation( lo, hi ), "limits need a system" );
    vf_check( !d.setDelay( w, 3U, 1.0F ) && !c.setDelay( w, 3U, 1.0F ), "a delay needs a system" );
    vf_check( !d.setInitStates( w ) && !d.setInitStates() && !c.setInitStates( w ) && !c.setInitStates(), "initial states need a system" );
    vf_check( LTISYS_TYPE_UNKNOWN == d.getType() && LTISYS_TYPE_UNKNOWN == c.getType(), "unknown type" );
    vf_same( &d, &d0, sizeof( d ), "rejected options leave the system unchanged" );
    vf_same( &c, &c0, sizeof( c ), "rejected options leave the system unchanged" );
    for ( size_t i = 0U ; i < 3U ; ++i ) vf_eq( w[ i ], 7.0F, "rejected storage is left alone" );
    vf_eq( d.excite( vf_real( "u" ) ), 0.0F, "no output without a system" );
    vf_eq( c.excite( vf_real( "u" ) ), 0.0F, "no output without a system" );
}
