/* Reference laws of the PID controller and its auto-tuner. */
#include "vf.hpp"
#include <include/pid.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;

static float rabs( float x ) { return ( x < 0.0F ) ? -x : x; }
static float clip( float x, float lo, float hi ) { return ( x > hi ) ? hi : ( ( x < lo ) ? lo : x ); }
static float dead( float e, float eps ) { return ( rabs( e ) <= eps ) ? 0.0F : e; }

struct refPid {
    float kc, ki, kd, dt, b, c, eps, kw, kt, lo, hi, beta, in;
    bool backward, manual;
    float ix, i1, d1, D, u1, m, mb1, uSat;
    void clear() { ix = i1 = d1 = D = u1 = m = mb1 = uSat = 0.0F; }
    float v;
    bool mrac;
    float gm, al, ref, th, th1;
    float step( float w, float y )
    {
        const float gc = ( backward && ( kc > 0.0F ) ) ? -kc : kc;
        const float gi = ( backward && ( ki > 0.0F ) ) ? -ki : ki;
        const float gd = ( backward && ( kd > 0.0F ) ) ? -kd : kd;
        const float e = dead( w - y, eps ), ec = dead( c*w - y, eps ), eb = dead( b*w - y, eps );
        const float de = ( ec - d1 )/dt;
        d1 = ec;
        ix = ix + ( ( e + u1 ) + i1 )*dt/2.0F;
        i1 = e + u1;
        D = beta*D + ( 1.0F - beta )*de;
        v = gc*eb + gi*ix + gd*D;
        if ( mrac && ( rabs( u1 ) <= eps ) ) {      /* the adaptive term is suspended while the output is limited */
            const float d = -gm*( y - ref )*ref/( al + ref*ref );
            th = th + ( d + th1 )*dt/2.0F;
            th1 = d;
            v += w*th;
        }
        const float bt = kt*in + kw*( uSat - m );
        m = m + ( bt + mb1 )*dt/2.0F;
        mb1 = bt;
        uSat = clip( manual ? m : v, lo, hi );
        u1 = kw*( uSat - v );
        return uSat;
    }
    void defaults()
    {
        b = 1.0F; c = 0.0F; eps = 0.0F; kw = kt = 1.0F; lo = 0.0F; hi = 100.0F; beta = 0.98F; in = 0.0F;
        backward = manual = mrac = false;
        th = th1 = 0.0F;
        clear();
    }
};
static void gains( refPid &r )
{
    r.defaults();
    r.kc = vf_real( "kc" ); r.ki = vf_real( "ki" ); r.kd = vf_real( "kd" ); r.dt = vf_real( "dt" );
    vf_assume( r.dt > 0.0F );
}
static void drive( pidController &p, refPid &r, int steps, const char *what )
{
    for ( int t = 0 ; t < steps ; ++t ) {
        const float w = vf_real( "w" ), y = vf_real( "y" );
        vf_eq( p.control( w, y ), r.step( w, y ), what );
    }
}
/* default configuration, all gains and signals arbitrary */
ENTRY H_pid_law_default()
{
    pidController p;
    refPid r;
    gains( r );
    vf_check( p.setup( r.kc, r.ki, r.kd, r.dt ), "pid setup accepted" );
    vf_check( p.setEpsilon( 0.0F ), "epsilon" );
    drive( p, r, 2, "PID law with default configuration" );
}
/* no limiting in effect: long linear histories */
ENTRY H_pid_law_linear()
{
    pidController p;
    refPid r;
    gains( r );
    r.beta = vf_real( "beta" );
    vf_assume( ( r.beta >= 0.0F ) && ( r.beta < 1.0F ) );
    r.lo = -3.402823466E+38F; r.hi = 3.402823466E+38F; r.eps = -1.0F;
    const pidGains g = { r.kc, r.ki, r.kd };
    vf_check( p.setup( g, r.dt ), "pid setup accepted" );
    vf_check( p.setSaturation( r.lo, r.hi ), "saturation accepted" );
    vf_check( p.setEpsilon( -1.0F ), "epsilon" );
    vf_check( p.setDerivativeFilter( r.beta ), "derivative filter accepted" );
    r.b = 0.5F; r.c = 0.25F;
    vf_check( p.setReferenceWeighting( 0.5F, 0.25F ), "weights accepted" );
    for ( int round = 0 ; round < 2 ; ++round ) {
        drive( p, r, 3, "PID law: proportional, trapezoidal integral and filtered derivative actions" );
        vf_check( p.reset(), "reset" );
        r.clear();
    }
}
ENTRY H_pid_law_direction()
{
    pidController p;
    refPid r;
    gains( r );
    r.lo = -3.402823466E+38F; r.hi = 3.402823466E+38F; r.eps = -1.0F;
    vf_check( p.setup( r.kc, r.ki, r.kd, r.dt ), "pid setup accepted" );
    vf_check( p.setSaturation( r.lo, r.hi ) && p.setEpsilon( -1.0F ), "configured" );
    vf_check( p.setDirection( pidDirection::PID_BACKWARD ), "direction" );
    r.backward = true;
    drive( p, r, 2, "backward action uses non-positive gains" );
    vf_check( p.setDirection( pidDirection::PID_FORWARD ), "direction" );
    r.backward = false;
    drive( p, r, 1, "forward action uses the gains as given" );
}
ENTRY H_pid_law_deadband()
{
    pidController p;
    refPid r;
    gains( r );
    r.lo = -3.402823466E+38F; r.hi = 3.402823466E+38F; r.eps = vf_real( "eps" );
    vf_assume( r.eps > 0.0F );
    r.b = r.c = 0.5F;
    vf_check( p.setup( r.kc, r.ki, r.kd, r.dt ), "pid setup accepted" );
    vf_check( p.setSaturation( r.lo, r.hi ) && p.setEpsilon( r.eps ) && p.setReferenceWeighting( 0.5F, 0.5F ), "configured" );
    drive( p, r, 1, "errors within the tolerance count as zero" );
}
ENTRY H_pid_law_windup()
{
    pidController p;
    refPid r;
    gains( r );
    r.kd = 0.0F;
    r.lo = vf_real( "lo" ); r.hi = vf_real( "hi" ); r.eps = -1.0F;
    r.kw = vf_real( "kw" ); r.kt = vf_real( "kt" );
    vf_assume( r.hi > r.lo );
    vf_check( p.setup( r.kc, r.ki, 0.0F, r.dt ), "pid setup accepted" );
    vf_check( p.setSaturation( r.lo, r.hi ) && p.setEpsilon( -1.0F ) && p.setExtraGains( r.kw, r.kt ), "configured" );
    drive( p, r, 2, "saturation feeds back into the integral action" );
}
ENTRY H_pid_law_manual()
{
    pidController p;
    refPid r;
    gains( r );
    r.lo = vf_real( "lo" ); r.hi = vf_real( "hi" ); r.eps = -1.0F;
    r.kw = vf_real( "kw" ); r.kt = vf_real( "kt" );
    r.kd = 0.0F;
    vf_assume( r.hi > r.lo );
    vf_check( p.setup( r.kc, r.ki, 0.0F, r.dt ), "pid setup accepted" );
    vf_check( p.setSaturation( r.lo, r.hi ) && p.setEpsilon( -1.0F ) && p.setExtraGains( r.kw, r.kt ), "configured" );
    vf_check( p.setMode( pidMode::PID_MANUAL ), "manual mode" );
    r.manual = true;
    r.in = vf_real( "in" );
    vf_check( p.setManualInput( r.in ), "manual input" );
    drive( p, r, 1, "manual mode tracks the manual input" );
    r.in = vf_real( "in" );
    vf_check( p.setManualInput( r.in ), "manual input" );
    drive( p, r, 1, "manual mode tracks the manual input" );
    r.manual = false;
    vf_check( p.setMode( pidMode::PID_AUTOMATIC ), "automatic mode" );
    drive( p, r, 1, "back to automatic mode" );
}
ENTRY H_pid_law_mrac()
{
    pidController p;
    refPid r;
    gains( r );
    r.lo = -3.402823466E+38F; r.hi = 3.402823466E+38F; r.eps = vf_real( "eps" );
    vf_assume( r.eps > 0.0F );
    r.kd = 0.0F; r.kw = 0.0F;
    real_t ref = 0.0F, th = 0.0F, th1 = 0.0F;
    const real_t gm = vf_real( "gamma" ), al = vf_real( "alpha" );
    vf_assume( ( gm > 0.0F ) && ( al > 0.0F ) );
    vf_check( p.setup( r.kc, r.ki, 0.0F, r.dt ), "pid setup accepted" );
    vf_check( p.setSaturation( r.lo, r.hi ) && p.setEpsilon( r.eps ) && p.setExtraGains( 0.0F, 1.0F ), "configured" );
    vf_check( p.setModelReferenceControl( ref, gm, al ), "model reference accepted" );
    for ( int t = 0 ; t < 2 ; ++t ) {
        const float w = vf_real( "w" ), y = vf_real( "y" );
        vf_assume( ( rabs( w - y ) > r.eps ) && ( rabs( y ) > r.eps ) );
        ref = vf_real( "ref" );
        const float d = -gm*( y - ref )*ref/( al + ref*ref );
        th = th + ( d + th1 )*r.dt/2.0F;
        th1 = d;
        const float u = r.step( w, y ) + w*th;
        vf_eq( p.control( w, y ), u, "model reference adds the adaptive feed-forward term" );
    }
    vf_check( p.removeModelReferenceControl(), "model reference removed" );
    const float w = vf_real( "w" ), y = vf_real( "y" );
    vf_assume( ( rabs( w - y ) > r.eps ) && ( rabs( y ) > r.eps ) );
    vf_eq( p.control( w, y ), r.step( w, y ), "without model reference the plain law applies again" );
    const real_t g2 = vf_fbits( "g2" ), a2 = vf_fbits( "a2" );
    const bool ok = ( g2 > 0.0F ) && ( a2 > 0.0F );
    vf_check( p.setModelReferenceControl( ref, g2, a2 ) == ok, "model reference accepted exactly for positive parameters" );
}
ENTRY H_pid_law_mrac_windup()
{
    pidController p;
    refPid r;
    gains( r );
    r.lo = vf_real( "lo" ); r.hi = vf_real( "hi" ); r.eps = 0.0F;
    r.ki = r.kd = 0.0F; r.dt = 0.5F;
    real_t ref = 0.0F;
    vf_assume( r.hi > r.lo );
    vf_check( p.setup( r.kc, 0.0F, 0.0F, r.dt ), "pid setup accepted" );
    vf_check( p.setSaturation( r.lo, r.hi ) && p.setEpsilon( 0.0F ), "configured" );
    vf_check( p.setModelReferenceControl( ref, 2.0F, 3.0F ), "model reference accepted" );
    r.mrac = true; r.gm = 2.0F; r.al = 3.0F;
    for ( int t = 0 ; t < 2 ; ++t ) {
        const float w = vf_real( "w" ), y = vf_real( "y" );
        ref = r.ref = ( 0 == t ) ? 1.0F : -2.0F;
        vf_eq( p.control( w, y ), r.step( w, y ), "the adaptive term is suspended exactly while the anti-windup feedback is active" );
    }
}
/* reset after an eventful history, and setup after any history, restore the initial behaviour */
ENTRY H_pid_law_reset()
{
    pidController p;
    refPid r;
    gains( r );
    real_t ref = 1.0F;
    r.eps = -1.0F; r.lo = -3.402823466E+38F; r.hi = 3.402823466E+38F;
    vf_check( p.setup( r.kc, r.ki, r.kd, r.dt ), "pid setup accepted" );
    vf_check( p.setEpsilon( -1.0F ) && p.setSaturation( -1.0F, 1.0F ) && p.setManualInput( 3.0F ), "configured" );
    vf_check( p.setMode( pidMode::PID_MANUAL ), "manual mode" );
    (void)p.control( vf_real( "w" ), vf_real( "y" ) );
    (void)p.control( vf_real( "w" ), vf_real( "y" ) );
    vf_check( p.reset(), "reset" );
    vf_check( p.setSaturation( r.lo, r.hi ) && p.setMode( pidMode::PID_AUTOMATIC ), "configured" );
    r.in = 3.0F;
    drive( p, r, 2, "reset restores the initial behaviour" );
    vf_check( p.setMode( pidMode::PID_MANUAL ), "manual mode" );
    r.manual = true;
    drive( p, r, 1, "manual value after reset" );
    /* adaptive term */
    vf_check( p.setMode( pidMode::PID_AUTOMATIC ) && p.setEpsilon( 1.0F ) && p.setExtraGains( 0.0F, 1.0F ), "configured" );
    vf_check( p.setModelReferenceControl( ref, 2.0F, 3.0F ), "model reference accepted" );
    (void)p.control( vf_real( "w" ), vf_real( "y" ) );
    vf_check( p.reset(), "reset" );
    r.clear();
    r.manual = false; r.mrac = true; r.gm = 2.0F; r.al = 3.0F; r.ref = ref; r.kw = 0.0F; r.eps = 1.0F;
    const float w = vf_real( "w" ), y = vf_real( "y" );
    vf_assume( ( w - y > 1.0F ) && ( y < -1.0F ) );
    vf_eq( p.control( w, y ), r.step( w, y ), "reset restarts the adaptive term" );
}
/* installing the adaptive term starts it from zero, whatever it did before */
ENTRY H_pid_law_mrac_again()
{
    pidController p;
    const real_t ref = 0.5F;
    vf_check( p.setup( 1.0F, 0.0F, 0.0F, 1.0F ), "pid setup accepted" );
    vf_check( p.setEpsilon( 1.0F ) && p.setExtraGains( 0.0F, 1.0F ) && p.setSaturation( -5000.0F, 5000.0F ), "configured" );
    vf_check( p.setModelReferenceControl( ref, 2.0F, 3.0F ), "model reference accepted" );
    const float w0 = 5.0F, y0 = vf_real( "y0" ), w = 7.0F, y = vf_real( "y" );
    vf_assume( ( y0 > 0.0F ) && ( y0 < 1.0F ) && ( y > 0.0F ) && ( y < 1.0F ) );
    const float d0 = -1.0F*( y0 - ref )*ref/( 3.0F + ref*ref ), d1 = -1.0F*( y - ref )*ref/( 3.0F + ref*ref );
    vf_eq( p.control( w0, y0 ), ( w0 - y0 ) + w0*d0, "adaptive term, first step" );
    vf_check( p.removeModelReferenceControl(), "removed" );
    vf_eq( p.control( w, y ), w - y, "no adaptive term once removed" );
    vf_check( p.setModelReferenceControl( ref, 2.0F, 3.0F ), "model reference accepted" );
    vf_eq( p.control( w, y ), ( w - y ) + w*d1, "the adaptive term starts again from zero" );
}
ENTRY H_pid_law_setup_again()
{
    pidController p;
    refPid r;
    vf_check( p.setup( 1.0F, 1.0F, 1.0F, 1.0F ), "pid setup accepted" );
    vf_check( p.setMode( pidMode::PID_MANUAL ) && p.setDirection( pidDirection::PID_BACKWARD ), "configured" );
    vf_havoc( &p, sizeof( p ), "any previous life" );
    gains( r );
    vf_check( p.setup( r.kc, r.ki, r.kd, r.dt ), "pid setup accepted" );
    vf_check( p.setEpsilon( 0.0F ), "epsilon" );
    drive( p, r, 1, "setup restores the default configuration and state" );
    vf_check( p.setSaturation( -3.402823466E+38F, 3.402823466E+38F ) && p.setEpsilon( -1.0F ), "configured" );
    r.lo = -3.402823466E+38F; r.hi = 3.402823466E+38F; r.eps = -1.0F;
    drive( p, r, 1, "setup restores the default configuration and state" );
    vf_check( p.setMode( pidMode::PID_MANUAL ), "manual mode" );
    r.manual = true;
    drive( p, r, 1, "setup clears the manual input and restores the tracking gains" );
}
/* output limits, for every internal state and configuration */
ENTRY H_pid_limits_any_state()
{
    for ( int k = 0 ; k < 4 ; ++k ) {
        pidController p;
        pidAutoTuning at;
        const real_t dt = vf_real( "dt" ), ref = vf_real( "ref" );
        vf_assume( dt > 0.0F );
        vf_check( p.setup( 1.0F, 1.0F, 1.0F, dt ), "pid setup accepted" );
        if ( k & 1 ) vf_check( p.setMode( pidMode::PID_MANUAL ), "mode" );
        if ( k & 2 ) vf_check( p.setDirection( pidDirection::PID_BACKWARD ), "direction" );
        if ( 3 == k ) vf_check( p.setModelReferenceControl( ref, 1.0F, 1.0F ), "model reference" );
        if ( 2 == k ) vf_check( p.bindAutoTuning( at ), "auto tuning" );
        vf_havoc( &p, sizeof( p ), "state" );
        const real_t lo = vf_real( "lo" ), hi = vf_real( "hi" );
        const bool r = p.setSaturation( lo, hi );
        vf_check( r == ( hi > lo ), "limits accepted exactly when max > min" );
        vf_assume( hi > lo );
        const real_t u = p.control( vf_real( "w" ), vf_real( "y" ) );
        vf_check( ( u >= lo ) && ( u <= hi ), "controller output within its limits from any state" );
    }
}
/* before setup nothing is accepted and the set-point passes through */
ENTRY H_pid_uninitialised()
{
    pidController p;
    pidAutoTuning at;
    const real_t w = vf_real( "w" ), ref = 0.0F;
    const pidGains g = { 1.0F, 1.0F, 1.0F };
    vf_eq( p.control( w, vf_real( "y" ) ), w, "an uninitialised controller passes the set-point through" );
    vf_check( !p.setDirection( pidDirection::PID_BACKWARD ), "direction rejected before setup" );
    vf_check( !p.setParams( 1.0F, 1.0F, 1.0F ), "params rejected before setup" );
    vf_check( !p.setGains( 1.0F, 1.0F, 1.0F ), "gains rejected before setup" );
    vf_check( !p.setGains( g ), "gains rejected before setup" );
    vf_check( !p.setExtraGains( 1.0F, 1.0F ), "extra gains rejected before setup" );
    vf_check( !p.setSaturation( 0.0F, 1.0F ), "limits rejected before setup" );
    vf_check( !p.setSeries(), "series rejected before setup" );
    vf_check( !p.setEpsilon( 0.0F ), "epsilon rejected before setup" );
    vf_check( !p.setDerivativeFilter( 0.5F ), "derivative filter rejected before setup" );
    vf_check( !p.setDerivativeFilterTimeConstant( 0.5F ), "derivative filter rejected before setup" );
    vf_check( !p.setMode( pidMode::PID_MANUAL ), "mode rejected before setup" );
    vf_check( !p.setReferenceWeighting( 1.0F, 1.0F ), "weights rejected before setup" );
    vf_check( !p.setManualInput( 1.0F ), "manual input rejected before setup" );
    vf_check( !p.setModelReferenceControl( ref ), "model reference rejected before setup" );
    vf_check( !p.removeModelReferenceControl(), "model reference removal rejected before setup" );
    vf_check( !p.reset(), "reset rejected before setup" );
    vf_check( !p.bindAutoTuning( at ), "auto tuning rejected before setup" );
    vf_check( !p.enableAutoTuning( 5U ), "auto tuning rejected before binding" );
    vf_check( !p.isAutoTuningComplete(), "auto tuning not complete before binding" );
    vf_check( !p.setAutoTuningParameters( 0.5F, 0.5F, 0.5F ), "auto tuning rejected before binding" );
    vf_check( !p.setAutoTuningControllerType( pidType::PID_TYPE_P ), "auto tuning rejected before binding" );
    vf_check( !p.unbindAutoTuning(), "nothing to unbind" );
    const real_t v = vf_real( "w" );
    vf_eq( p.control( v, vf_real( "y" ) ), v, "still uninitialised after rejected settings" );
}
ENTRY H_pid_setup_accept()
{
    pidController p;
    const real_t dt = vf_fbits( "dt" );
    const real_t w = vf_real( "w" );
    vf_check( p.setup( 1.0F, 1.0F, 1.0F, dt ) == ( dt > 0.0F ), "setup accepted exactly when the time step is positive" );
    vf_assume( !( dt > 0.0F ) );
    vf_eq( p.control( w, 0.0F ), w, "a rejected setup leaves the controller uninitialised" );
}
ENTRY H_pid_setters_accept()
{
    pidController p, q;
    const real_t dt = vf_real( "dt" );
    vf_assume( dt > 0.0F );
    vf_check( p.setup( vf_real( "kc" ), vf_real( "ki" ), vf_real( "kd" ), dt ), "pid setup accepted" );
    {
        vf_snapshot( &q, &p, sizeof( p ) );
        const real_t x = vf_fbits( "beta" );
        const bool ok = ( x >= 0.0F ) && ( x < 1.0F );
        vf_check( q.setDerivativeFilter( x ) == ok, "derivative filter accepted exactly in [0,1)" );
        if ( !ok ) vf_same( &p, &q, sizeof( p ), "rejected derivative filter leaves the controller unchanged" );
    }
    {
        vf_snapshot( &q, &p, sizeof( p ) );
        real_t a, b;
        vf_fpair( "minmax", &a, &b );
        const bool ok = ( b > a );
        vf_check( q.setSaturation( a, b ) == ok, "limits accepted exactly when max > min" );
        if ( !ok ) vf_same( &p, &q, sizeof( p ), "rejected limits leave the controller unchanged" );
    }
    {
        vf_snapshot( &q, &p, sizeof( p ) );
        const real_t x = vf_real( "tf" );
        vf_check( q.setDerivativeFilterTimeConstant( x ) == ( x >= 0.0F ), "filter time constant accepted exactly when not negative" );
        if ( x < 0.0F ) vf_same( &p, &q, sizeof( p ), "rejected time constant leaves the controller unchanged" );
    }
    {
        vf_snapshot( &q, &p, sizeof( p ) );
        real_t ref = 0.0F;
        const real_t a = vf_fbits( "gamma" ), b = vf_fbits( "alpha" );
        const bool ok = ( a > 0.0F ) && ( b > 0.0F );
        vf_check( q.setModelReferenceControl( ref, a, b ) == ok, "model reference accepted exactly for positive parameters" );
        if ( !ok ) vf_same( &p, &q, sizeof( p ), "rejected model reference leaves the controller unchanged" );
    }
}
ENTRY H_pid_gain_forms()
{
    pidController p;
    const real_t dt = vf_real( "dt" );
    vf_assume( dt > 0.0F );
    vf_check( p.setup( 1.0F, 1.0F, 1.0F, dt ), "pid setup accepted" );
    const real_t kc = vf_real( "kc" ), ti = vf_real( "ti" ), td = vf_real( "td" ), ki = vf_real( "ki" ), kd = vf_real( "kd" );
    vf_assume( ti != 0.0F );
    vf_check( p.setParams( kc, ti, td ), "params accepted" );
    {
        const pidGains q = p.getGains();
        vf_eq( q.Kc, kc, "Kc" ); vf_eq( q.Ki, kc/ti, "Ki = Kc/Ti, either sign" ); vf_eq( q.Kd, kc*td, "Kd = Kc*Td" );
    }
    vf_assume( ( ti > 0.0F ) && ( kc > 0.0F ) && ( ki > 0.0F ) && ( td > 0.0F ) && ( kd > 0.0F ) );
    vf_check( p.setGains( kc, ki, kd ), "gains accepted" );
    pidGains g = p.getGains();
    vf_eq( g.Kc, kc, "Kc" ); vf_eq( g.Ki, ki, "Ki" ); vf_eq( g.Kd, kd, "Kd" );
    vf_check( p.setParams( kc, ti, td ), "params accepted" );
    g = p.getGains();
    vf_eq( g.Kc, kc, "Kc" ); vf_eq( g.Ki, kc/ti, "Ki = Kc/Ti" ); vf_eq( g.Kd, kc*td, "Kd = Kc*Td" );
    const pidGains h = { kc, ki, kd };
    vf_check( p.setGains( h ), "gains accepted" );
    g = p.getGains();
    vf_eq( g.Kc, kc, "Kc" ); vf_eq( g.Ki, ki, "Ki" ); vf_eq( g.Kd, kd, "Kd" );
    /* series (interacting) form: Kc(1 + 1/(Ti s))(1 + Td s) */
    vf_check( p.setParams( kc, ti, td ), "params accepted" );
    vf_check( p.setSeries(), "series accepted" );
    g = p.getGains();
    vf_eq( g.Kc, kc*( 1.0F + td/ti ), "series Kc' = Kc(1+Td/Ti)" );
    vf_eq( g.Ki, kc/ti, "series Ki' = Kc/Ti" );
    vf_eq( g.Kd, kc*td, "series Kd' = Kc*Td" );
    /* derivative filter time constant */
    const real_t tf = vf_real( "tf" );
    vf_assume( tf > 0.0F );
    pidController q;
    refPid r;
    gains( r );
    r.lo = -3.402823466E+38F; r.hi = 3.402823466E+38F; r.eps = -1.0F;
    vf_check( q.setup( r.kc, r.ki, r.kd, r.dt ), "pid setup accepted" );
    vf_check( q.setSaturation( r.lo, r.hi ) && q.setEpsilon( -1.0F ), "configured" );
    vf_check( q.setDerivativeFilterTimeConstant( tf ), "filter time constant accepted" );
    r.beta = ffmath::exp( -r.dt/tf );
    drive( q, r, 2, "filter time constant sets beta = exp(-dt/Tf)" );
    /* weights are limited to [0,1] */
    r.b = clip( vf_real( "b" ), 0.0F, 1.0F );
    const real_t gb = vf_real( "gb" ), gc = vf_real( "gc" );
    vf_check( q.setReferenceWeighting( gb, gc ), "weights accepted" );
    r.b = clip( gb, 0.0F, 1.0F ); r.c = clip( gc, 0.0F, 1.0F );
    drive( q, r, 1, "reference weights limited to [0,1]" );
}
/*---------------------------------------------------------------- auto tuning */
struct refTune {
    float p00, p01, p10, p11, a1, b1, uk, yk, k, tao, l, mu;
    void step( float u, float y, float dt, bool enabled )
    {
        /* recursive least squares with forgetting factor, regressor phi = [ u(k-1), -y(k-1) ] */
        const float f0 = uk, f1 = -yk;
        const float pf0 = p00*f0 + p01*f1, pf1 = p10*f0 + p11*f1;
        const float fp0 = f0*p00 + f1*p10, fp1 = f0*p01 + f1*p11;
        const float r = l + f0*pf0 + f1*pf1;
        const float k0 = pf0/r, k1 = pf1/r;
        const float e = y - ( b1*f0 + a1*f1 );
        b1 += k0*e; a1 += k1*e;
        const float q00 = ( p00 - k0*fp0 )/l, q01 = ( p01 - k0*fp1 )/l;
        const float q10 = ( p10 - k1*fp0 )/l, q11 = ( p11 - k1*fp1 )/l;
        p00 = q00 + 1e-10F; p01 = q01; p10 = q10; p11 = q11 + 1e-10F;
        uk = u; yk = y;
        const float g = b1/( 1.0F + a1 ), t = -dt/ffmath::log( rabs( a1 ) );
        if ( ( t > 0.0F ) && ( g > 0.0F ) && enabled ) {
            k = g + mu*( k - g );
            tao = t + mu*( tao - t );
        }
    }
};
static pidGains tuned( const pidType ty, float k, float tao, float speed )
{
    pidGains g = { 0.0F, 0.0F, 0.0F };
    const float td = tao/10.0F;
    switch ( ty ) {
        case pidType::PID_TYPE_P:
            g.Kc = speed*( 1.03F/k )*( tao/td + 0.34F );
            break;
        case pidType::PID_TYPE_PD:
            g.Kc = speed*( 1.24F/k )*( tao/td + 0.129F );
            g.Kd = g.Kc*0.27F*td*( tao - 0.324F*td )/( tao + 0.129F*td );
            break;
        case pidType::PID_TYPE_PI:
            g.Kc = speed*( 0.9F/k )*( tao/td + 0.092F );
            g.Ki = g.Kc*( tao + 2.22F*td )/( 3.33F*td*( tao + 0.092F*td ) );
            break;
        default:
            g.Kc = speed*( 1.35F/k )*( tao/td + 0.185F );
            g.Ki = g.Kc*( tao + 0.611F*td )/( 2.5F*td*( tao + 0.185F*td ) );
            g.Kd = 0.37F*g.Kc*td*tao/( tao + 0.185F*td );
            break;
    }
    return g;
}
static void tuneInit( refTune &r, float kc, float ki, float dt )
{
    const float k = kc/0.9F, T = 0.27F*k/ki;
    r.p00 = r.p11 = 1000.0F; r.p01 = r.p10 = 0.0F;
    r.a1 = -ffmath::exp( -dt/T ); r.b1 = k*( 1.0F + r.a1 );
    r.uk = r.yk = r.k = r.tao = 0.0F; r.l = 0.9898F; r.mu = 0.95F;
}
/* one estimation step with all parameters arbitrary: gain and time constant estimates */
ENTRY H_pid_tune_estimates()
{
    const pidType ty[] = { pidType::PID_TYPE_P, pidType::PID_TYPE_PI, pidType::PID_TYPE_PD, pidType::PID_TYPE_PID };
    for ( int i = 0 ; i < 4 ; ++i ) {
        pidController p;
        pidAutoTuning at;
        const real_t kc = vf_real( "kc" ), ki = vf_real( "ki" ), dt = vf_real( "dt" ), mu = vf_real( "mu" ), sp = vf_real( "speed" ), la = vf_real( "lambda" );
        vf_assume( ( dt > 0.0F ) && ( kc > 0.0F ) && ( ki > 0.0F ) );
        vf_assume( ( mu > 0.0F ) && ( mu < 1.0F ) && ( sp > 0.0F ) && ( sp < 1.0F ) && ( la > 0.0F ) && ( la < 1.0F ) );
        vf_check( p.setup( kc, ki, 0.0F, dt ), "pid setup accepted" );
        vf_check( p.bindAutoTuning( at ), "auto tuner bound" );
        vf_check( p.setAutoTuningControllerType( ty[ i ] ), "controller type accepted" );
        vf_check( p.setAutoTuningParameters( mu, sp, la ), "tuner parameters accepted" );
        refTune r;
        tuneInit( r, kc, ki, dt );
        r.l = la; r.mu = mu;
        vf_check( p.enableAutoTuning( 2U ), "tuner enabled" );
        vf_check( !p.isAutoTuningComplete(), "tuner not complete while running" );
        const real_t y = vf_real( "y" );
        const real_t u = p.control( vf_real( "w" ), y );
        r.step( u, y, dt, true );
        vf_check( !p.isAutoTuningComplete(), "tuner not complete before the requested number of steps" );
        vf_assume( ( r.k > 0.0F ) && ( r.tao > 0.0F ) );
        const pidGains g = at.getEstimates(), h = tuned( ty[ i ], r.k, r.tao, sp );
        vf_eq( g.Kc, h.Kc, "estimated proportional gain" );
        vf_eq( g.Ki, h.Ki, "estimated integral gain" );
        vf_eq( g.Kd, h.Kd, "estimated derivative gain" );
        const pidGains q = p.getGains();
        vf_eq( q.Kc, kc, "controller gains untouched while tuning" );
        vf_eq( q.Ki, ki, "controller gains untouched while tuning" );
    }
}
/* recursive estimation over several samples */
static void tuneRls( const int steps, const bool symbolicLambda )
{
    pidController p;
    pidAutoTuning at;
    const real_t kc = 2.0F, ki = 1.0F, dt = 0.5F;
    vf_check( p.setup( kc, ki, 0.0F, dt ), "pid setup accepted" );
    vf_check( p.setSaturation( -3.402823466E+38F, 3.402823466E+38F ) && p.setEpsilon( -1.0F ) && p.setExtraGains( 0.0F, 0.0F ), "configured" );
    vf_check( p.setGains( 1.0F, 0.0F, 0.0F ), "gains" );
    vf_check( p.setGains( kc, ki, 0.0F ), "gains" );
    if ( 1 == steps ) vf_havoc( &at, sizeof( at ), "a used tuner" );
    vf_check( p.bindAutoTuning( at ), "auto tuner bound" );
    vf_check( p.setGains( 1.0F, 0.0F, 0.0F ), "gains" );
    vf_check( p.setAutoTuningControllerType( pidType::PID_TYPE_P ), "controller type accepted" );
    refTune r;
    tuneInit( r, kc, ki, dt );
    if ( symbolicLambda ) {
        const real_t la = vf_real( "lambda" );
        vf_assume( ( la > 0.0F ) && ( la < 1.0F ) );
        vf_check( p.setAutoTuningParameters( 0.5F, 0.25F, la ), "tuner parameters accepted" );
        r.l = la; r.mu = 0.5F;
    }
    vf_check( p.enableAutoTuning( 100U ), "tuner enabled" );
    for ( int t = 0 ; t < steps ; ++t ) {
        /* long histories: a disturbed first-order process */
        static const real_t ys[] = { 1.0F, 1.5F, 1.75F, 2.5F, 2.25F }, us[] = { 2.0F, 1.0F, 3.0F, 0.5F, 2.5F };
        const bool sym = ( steps < 4 ) && ( ( t < 1 ) || ( 2 == steps ) );
        const real_t y = sym ? vf_real( "y" ) : ( ( steps < 4 ) ? 3.0F + static_cast<real_t>( t ) : ys[ t ] );
        const real_t u = p.control( sym ? vf_real( "w" ) : ( ( steps < 4 ) ? 6.0F : us[ t ] + ys[ t ] ), y );
        r.step( u, y, dt, true );
        if ( ( steps - 1 ) == t ) {
            vf_assume( ( r.k > 0.0F ) && ( r.tao > 0.0F ) );
            const pidGains g = at.getEstimates(), h = tuned( pidType::PID_TYPE_P, r.k, r.tao, 0.25F );
            vf_eq( g.Kc, h.Kc, "estimates follow recursive least squares with forgetting" );
        }
    }
}
/* a tuner bound after the controller got its other options, and bound a second time */
ENTRY H_pid_tune_options()
{
    static const pidMode modes[ 2 ] = { pidMode::PID_AUTOMATIC, pidMode::PID_MANUAL };
    for ( int k = 0 ; k < 12 ; ++k ) {
        pidController p;
        pidAutoTuning at, other;
        const real_t ref = 0.5F;
        const real_t kc = 2.0F, ki = 1.0F, dt = 0.5F;
        vf_havoc( &at, sizeof( at ), "a used tuner" );
        vf_check( p.setup( kc, ki, 0.0F, dt ), "pid setup accepted" );
        vf_check( p.setSaturation( -1000.0F, 1000.0F ) && p.setEpsilon( 0.0F ) && p.setExtraGains( 0.0F, 0.0F ), "configured" );
        if ( k & 1 ) vf_check( p.setModelReferenceControl( ref, 2.0F, 3.0F ), "model reference accepted" );
        if ( k & 2 ) vf_check( p.setMode( modes[ 1 ] ) && p.setManualInput( 0.25F ), "manual mode" );
        if ( k & 4 ) {
            vf_check( p.bindAutoTuning( other ) && p.enableAutoTuning( 5U ), "another tuner" );
            (void)p.control( 2.0F, 1.0F );
            vf_check( p.reset(), "reset" );
        }
        if ( k & 8 ) {
            vf_check( p.bindAutoTuning( at ) && p.enableAutoTuning( 5U ), "the same tuner, already used" );
            (void)p.control( 2.0F, 1.0F );
            vf_check( p.reset(), "reset" );
        }
        vf_check( p.bindAutoTuning( at ), "auto tuner bound" );
        vf_check( p.setAutoTuningControllerType( pidType::PID_TYPE_P ), "controller type accepted" );
        vf_check( p.enableAutoTuning( 100U ), "tuner enabled" );
        refTune r;
        tuneInit( r, kc, ki, dt );
        for ( int t = 0 ; t < 2 ; ++t ) {
            const real_t y = ( 0 == t ) ? 1.0F : 1.5F;
            const real_t u = p.control( 3.0F, y );
            r.step( u, y, dt, true );
        }
        vf_check( !p.isAutoTuningComplete(), "tuner not complete before the requested number of steps" );
        vf_assume( ( r.k > 0.0F ) && ( r.tao > 0.0F ) );
        vf_eq( at.getEstimates().Kc, tuned( pidType::PID_TYPE_P, r.k, r.tao, 0.25F ).Kc, "a tuner starts from the current gains whatever else is configured" );
    }
}
ENTRY H_pid_tune_rls2() { tuneRls( 2, true ); }
ENTRY H_pid_tune_rls3() { tuneRls( 3, false ); }
ENTRY H_pid_tune_rebind() { tuneRls( 1, false ); }
ENTRY H_pid_tune_rls4() { tuneRls( 4, false ); }
ENTRY H_pid_tune_rls5() { tuneRls( 5, false ); }
/* completion protocol */
ENTRY H_pid_tune_complete()
{
    for ( uint32_t n = 1U ; n <= 3U ; ++n ) {
        pidController p;
        pidAutoTuning at;
        const real_t kc = vf_real( "kc" ), ki = vf_real( "ki" ), kd = vf_real( "kd" ), dt = vf_real( "dt" );
        const pidType ty = ( 2U == n ) ? pidType::PID_TYPE_PID : ( ( 3U == n ) ? pidType::PID_TYPE_PD : pidType::PID_TYPE_PI );
        vf_assume( ( dt > 0.0F ) && ( kc > 0.0F ) && ( ki > 0.0F ) );
        vf_check( p.setup( kc, ki, kd, dt ), "pid setup accepted" );
        vf_check( p.setSaturation( -3.402823466E+38F, 3.402823466E+38F ) && p.setEpsilon( -1.0F ) && p.setExtraGains( 0.0F, 0.0F ), "configured" );
        vf_check( p.bindAutoTuning( at ), "auto tuner bound" );
        if ( n > 1U ) vf_check( p.setAutoTuningControllerType( ty ), "controller type accepted" );
        vf_check( p.enableAutoTuning( n ), "tuner enabled" );
        refTune r;
        tuneInit( r, kc, ki, dt );
        for ( uint32_t t = 0U ; t < n ; ++t ) {
            vf_check( !p.isAutoTuningComplete(), "tuning is not complete before the requested number of steps" );
            vf_eq( p.getGains().Kc, kc, "gains kept until tuning completes" );
            /* a silent process: the parameters of the model stay where they are */
            (void)p.control( 0.0F, 0.0F );
            r.step( 0.0F, 0.0F, dt, true );
            vf_assume( ( r.k > 0.0F ) && ( r.tao > 0.0F ) );
        }
        vf_check( p.isAutoTuningComplete(), "tuning completes after the requested number of valid steps" );
        const pidGains g = p.getGains(), h = tuned( ty, r.k, r.tao, 0.25F ), q = at.getEstimates();
        vf_eq( g.Kc, h.Kc, "on completion the controller takes the estimated gains" );
        vf_eq( g.Ki, h.Ki, "on completion the controller takes the estimated gains" );
        vf_eq( g.Kd, h.Kd, "on completion the controller takes the estimated gains" );
        vf_eq( q.Kc, g.Kc, "estimates and controller gains agree on completion" );
        (void)p.control( 0.0F, 0.0F );
        vf_check( p.isAutoTuningComplete(), "tuning stays complete" );
        vf_eq( p.getGains().Kc, g.Kc, "gains kept after completion" );
        vf_check( p.unbindAutoTuning(), "unbound" );
        vf_check( !p.isAutoTuningComplete() && !p.enableAutoTuning( 3U ), "no tuner after unbinding" );
        vf_check( p.bindAutoTuning( at ) && !p.isAutoTuningComplete(), "a tuner bound again starts over" );
    }
}
ENTRY H_pid_tune_endless()
{
    for ( int k = 0 ; k < 3 ; ++k ) {
        pidController p;
        pidAutoTuning at, before;
        const real_t dt = vf_real( "dt" );
        vf_assume( dt > 0.0F );
        vf_check( p.setup( vf_real( "kc" ), vf_real( "ki" ), 0.0F, dt ), "pid setup accepted" );
        vf_check( p.bindAutoTuning( at ), "auto tuner bound" );
        if ( 1 == k ) vf_check( p.enableAutoTuning( pidAutoTuning::UNDEFINED ), "tuner enabled" );
        if ( 2 == k ) vf_check( p.enableAutoTuning( 0U ), "tuner disabled" );
        vf_havoc( &at, sizeof( at ), "tuner" );
        vf_snapshot( &before, &at, sizeof( at ) );
        const pidGains g = p.getGains();
        (void)p.control( vf_real( "w" ), vf_real( "y" ) );
        vf_check( !p.isAutoTuningComplete(), "an endless or disabled tuner never completes" );
        vf_same_ctl( &before, &at, sizeof( at ), "an endless tuner keeps its step budget" );
        const pidGains h = p.getGains();
        vf_eq( h.Kc, g.Kc, "an endless or disabled tuner leaves the gains alone" );
        vf_eq( h.Ki, g.Ki, "an endless or disabled tuner leaves the gains alone" );
        vf_eq( h.Kd, g.Kd, "an endless or disabled tuner leaves the gains alone" );
    }
}
ENTRY H_pid_tune_params()
{
    pidController p;
    pidAutoTuning at, before;
    vf_check( p.setup( 1.0F, 1.0F, 0.0F, 1.0F ), "pid setup accepted" );
    vf_check( p.bindAutoTuning( at ), "auto tuner bound" );
    vf_snapshot( &before, &at, sizeof( at ) );
    const real_t mu = vf_fbits( "mu" ), al = vf_fbits( "alpha" ), la = vf_fbits( "lambda" );
    const bool ok = ( mu > 0.0F ) && ( mu <= 1.0F ) && ( al > 0.0F ) && ( al <= 1.0F ) && ( la > 0.0F ) && ( la <= 1.0F );
    vf_check( p.setAutoTuningParameters( mu, al, la ) == ok, "tuner parameters accepted exactly in (0,1]" );
    vf_assume( !ok );
    vf_same( &before, &at, sizeof( at ), "rejected tuner parameters leave the tuner unchanged" );
}
/* concrete runs over every combination of direction, mode, dead band, weights and adaptive term, with changes on the way */
static void scenario( const unsigned k, const int steps )
{
    pidController p;
    refPid r;
    real_t ref = 1.0F;
    r.defaults();
    r.kc = ( k & 64U ) ? -1.5F : 1.5F; r.ki = ( k & 64U ) ? 0.0F : 0.5F; r.kd = 0.25F; r.dt = 0.5F;
    r.lo = -4.0F; r.hi = 6.0F; r.beta = 0.5F;
    r.eps = ( k & 1U ) ? 1.0F : 0.0F;
    r.b = ( k & 2U ) ? 0.5F : 1.0F; r.c = ( k & 2U ) ? 0.25F : 0.0F;
    r.backward = 0U != ( k & 4U );
    r.mrac = 0U != ( k & 8U );
    r.manual = 0U != ( k & 16U );
    r.kw = ( k & 32U ) ? 0.5F : 1.0F; r.kt = ( k & 32U ) ? 0.25F : 1.0F;
    r.in = 2.0F; r.gm = 0.5F; r.al = 3.0F;
    vf_check( p.setup( r.kc, r.ki, r.kd, r.dt ) && p.setSaturation( r.lo, r.hi ) && p.setDerivativeFilter( r.beta ) && p.setEpsilon( r.eps ), "configured" );
    vf_check( p.setReferenceWeighting( r.b, r.c ) && p.setExtraGains( r.kw, r.kt ) && p.setManualInput( r.in ), "configured" );
    vf_check( p.setDirection( r.backward ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD ), "direction" );
    vf_check( p.setMode( r.manual ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC ), "mode" );
    if ( r.mrac ) vf_check( p.setModelReferenceControl( ref, r.gm, r.al ), "model reference" );
    for ( int t = 0 ; t < steps ; ++t ) {
        const float w = static_cast<float>( ( ( t*5 ) % 9 ) - 4 ), y = static_cast<float>( ( ( t*3 ) % 7 ) - 3 );
        ref = r.ref = ( t & 1 ) ? 1.0F : -1.0F;
        if ( 12 == t ) { r.manual = !r.manual; vf_check( p.setMode( r.manual ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC ), "mode" ); }
        if ( 15 == t ) { r.backward = !r.backward; vf_check( p.setDirection( r.backward ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD ), "direction" ); }
        if ( 18 == t ) { vf_check( p.setManualInput( -3.0F ), "manual input" ); r.in = -3.0F; }
        if ( 20 == t ) { r.kc = 2.0F; r.ki = 0.25F; r.kd = 0.5F; vf_check( p.setGains( 2.0F, 0.25F, 0.5F ), "gains" ); }
        if ( 23 == t ) { vf_check( p.reset(), "reset" ); r.clear(); r.th = r.th1 = 0.0F; }
        if ( 25 == t ) { r.lo = 0.0F; r.hi = 1.0F; vf_check( p.setSaturation( 0.0F, 1.0F ), "limits" ); }
        vf_eq( p.control( w, y ), r.step( w, y ), "control law over a history with changes of configuration" );
    }
}
ENTRY H_pid_law_scenarios_a() { for ( unsigned k = 0U ; k < 64U ; ++k ) scenario( k, 30 ); }
ENTRY H_pid_law_scenarios_b() { for ( unsigned k = 64U ; k < 128U ; ++k ) scenario( k, 30 ); }
ENTRY H_pid_law_long() { scenario( 0U, 300 ); scenario( 3U, 300 ); }
/* a budget beyond 256 steps */
ENTRY H_pid_tune_long()
{
    static const uint32_t budgets[] = { 300U, 66000U };
    for ( int k = 0 ; k < 2 ; ++k ) {
        pidController p;
        pidAutoTuning at;
        vf_check( p.setup( 2.0F, 1.0F, 0.0F, 0.5F ), "pid setup accepted" );
        vf_check( p.setSaturation( -3.402823466E+38F, 3.402823466E+38F ) && p.setEpsilon( -1.0F ) && p.setExtraGains( 0.0F, 0.0F ), "configured" );
        vf_check( p.bindAutoTuning( at ) && p.enableAutoTuning( budgets[ k ] ), "tuner enabled" );
        const uint32_t n = ( 0 == k ) ? 300U : 700U;
        for ( uint32_t t = 0U ; t < n ; ++t ) {
            vf_check( !p.isAutoTuningComplete(), "tuning is not complete before the requested number of steps" );
            (void)p.control( 0.0F, 0.0F );
        }
        vf_check( p.isAutoTuningComplete() == ( 0 == k ), "tuning completes after exactly the requested number of steps" );
    }
}
/* estimates that are no usable process (negative gain, or negative time constant) do not count as steps */
ENTRY H_pid_tune_invalid()
{
    static const real_t kcs[] = { -2.0F, 2.0F }, kis[] = { -1.0F, -1.0F };
    for ( int k = 0 ; k < 2 ; ++k ) {
        pidController p;
        pidAutoTuning at;
        vf_check( p.setup( kcs[ k ], kis[ k ], 0.0F, 0.5F ), "pid setup accepted" );
        vf_check( p.setSaturation( -3.402823466E+38F, 3.402823466E+38F ) && p.setEpsilon( -1.0F ) && p.setExtraGains( 0.0F, 0.0F ), "configured" );
        vf_check( p.bindAutoTuning( at ) && p.enableAutoTuning( 2U ), "tuner enabled" );
        for ( int t = 0 ; t < 4 ; ++t ) {
            (void)p.control( 0.0F, 0.0F );
            vf_check( !p.isAutoTuningComplete(), "a step without a usable model does not count" );
            vf_eq( p.getGains().Kc, kcs[ k ], "and leaves the gains alone" );
        }
    }
}
