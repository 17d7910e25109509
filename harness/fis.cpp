#include "vf.hpp"
#include <include/fis.hpp>
#include <include/ffmath.hpp>
#include <new>
using namespace qlibs;

enum : fis::tag { in0, in1, in2 };
enum : fis::tag { out0, out1 };
static const fis::rules R1[] = { FIS_RULES_BEGIN IF in0 IS 0 THEN out0 IS 0 END FIS_RULES_END };
static const fis::rules R1n[] = { FIS_RULES_BEGIN IF in0 IS_NOT 0 THEN out0 IS 0 END FIS_RULES_END };

static float clamp( float v, float lo, float hi ) { return ( v < lo ) ? lo : ( ( v > hi ) ? hi : v ); }
static float unit( float v ) { return clamp( v, 0.0f, 1.0f ); }

/* membership of x as seen through a one-rule Sugeno system with the consequent 1 */
static float memb( fis::shapeMF s, const float *p, float x, float h = 1.0f )
{
    static const float one[ 1 ] = { 1.0f };
    fis::system<fis::Sugeno,1,1,1,1,1> f( R1 );
    float y = -77.0f;
    vf_check( f.setup(), "setup" );
    vf_check( f.setDeFuzzMethod( fis::wtsum ), "weighted sum" );
    vf_check( f.setupInput( in0, -1000.0f, 1000.0f ) && f.setupOutput( out0, -5.0f, 5.0f ), "ranges" );
    vf_check( f.setupInputMF( in0, 0, s, p, h ), "input set" );
    vf_check( f.setupOutputMF( out0, 0, fis::constantmf, one ), "output set" );
    vf_check( f.setInput( in0, x ), "input value" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_check( f.getOutput( out0, y ), "output value" );
    return y;
}
static float anyx()
{
    const float x = vf_real( "x" );
    vf_assume( x >= -1000.0f );
    vf_assume( x <= 1000.0f );
    return x;
}
static float positive( const char *n ) { const float v = vf_real( n ); vf_assume( v > 0.0f ); return v; }
static float nonneg( const char *n ) { const float v = vf_real( n ); vf_assume( v >= 0.0f ); return v; }

static float tri( float x, float a, float b, float c )
{
    return ( x == b ) ? 1.0f : ( ( x < b ) ? ( ( x <= a ) ? 0.0f : ( x - a )/( b - a ) ) : ( ( x >= c ) ? 0.0f : ( c - x )/( c - b ) ) );
}
static float trap( float x, float a, float b, float c, float d )
{
    return ( ( x >= b ) && ( x <= c ) ) ? 1.0f : ( ( x < b ) ? ( ( x <= a ) ? 0.0f : ( x - a )/( b - a ) ) : ( ( x >= d ) ? 0.0f : ( d - x )/( d - c ) ) );
}
ENTRY H_mf_tri()
{
    const float a = vf_real( "a" );
    const float p[ 3 ] = { a, a + positive( "ab" ), 0.0f };
    const float q[ 3 ] = { p[ 0 ], p[ 1 ], p[ 1 ] + positive( "bc" ) };
    const float x = anyx();
    vf_eq( memb( fis::trimf, q, x ), tri( x, q[ 0 ], q[ 1 ], q[ 2 ] ), "triangular set" );
}
ENTRY H_mf_tri_edges()
{
    const float a = vf_real( "a" );
    const float w = positive( "w" );
    const float x = anyx();
    { const float q[ 3 ] = { a, a, a + w }; vf_eq( memb( fis::trimf, q, x ), tri( x, a, a, a + w ), "triangular set, vertical left side" ); }
    { const float q[ 3 ] = { a, a + w, a + w }; vf_eq( memb( fis::trimf, q, x ), tri( x, a, a + w, a + w ), "triangular set, vertical right side" ); }
}
ENTRY H_mf_trap()
{
    const float a = vf_real( "a" );
    const float b = a + positive( "ab" ), c = b + positive( "bc" ), d = c + positive( "cd" );
    const float q[ 4 ] = { a, b, c, d };
    const float x = anyx();
    vf_eq( memb( fis::trapmf, q, x ), trap( x, a, b, c, d ), "trapezoidal set" );
}
ENTRY H_mf_trap_edges()
{
    const float a = vf_real( "a" );
    const float w = positive( "w" ), v = positive( "v" );
    const float x = anyx();
    { const float q[ 4 ] = { a, a, a + w, a + w + v }; vf_eq( memb( fis::trapmf, q, x ), trap( x, a, a, a + w, a + w + v ), "trapezoidal set, left shoulder" ); }
    { const float q[ 4 ] = { a, a + w, a + w + v, a + w + v }; vf_eq( memb( fis::trapmf, q, x ), trap( x, a, a + w, a + w + v, a + w + v ), "trapezoidal set, right shoulder" ); }
}
ENTRY H_mf_bells()
{
    const float x = anyx(), t = vf_real( "t" ), b = vf_real( "b" ), a = positive( "a" );
    const float c = x - t, u = t/a;
    { const float q[ 3 ] = { a, b, c }; vf_eq( memb( fis::gbellmf, q, x ), unit( 1.0f/( 1.0f + ffmath::pow( ffmath::absf( u ), 2.0f*b ) ) ), "generalised bell" ); }
    { const float q[ 2 ] = { a, c }; vf_eq( memb( fis::gaussmf, q, x ), unit( ffmath::exp( -0.5f*u*u ) ), "gaussian" ); }
    { const float q[ 2 ] = { a, c }; vf_eq( memb( fis::spikemf, q, x ), unit( ffmath::exp( -ffmath::absf( 10.0f*u ) ) ), "spike" ); }
}
static void gauss2( const float x, const float t, const float t2, const float a, const float a2 )   /* distances to both centres */
{
    const float q[ 4 ] = { a, x - t, a2, x - t2 };
    const float u = t/a, v = t2/a2;
    const float g1 = ( t < 0.0f ) ? ffmath::exp( -0.5f*u*u ) : 1.0f, g2 = ( t2 > 0.0f ) ? ffmath::exp( -0.5f*v*v ) : 1.0f;
    vf_eq( memb( fis::gauss2mf, q, x ), unit( g1*g2 ), "two-sided gaussian" );
}
ENTRY H_mf_gauss2()
{
    const float x = anyx(), t = vf_real( "t" ), a = positive( "a" ), a2 = positive( "a2" ), d = positive( "d" );
    gauss2( x, 0.0f, -d, a, a2 );
    gauss2( x, d, 0.0f, a, a2 );
    gauss2( x, 0.0f, 0.0f, a, a2 );
    vf_assume( t != 0.0f );
    vf_assume( t - d != 0.0f );
    gauss2( x, t, t - d, a, a2 );
}
ENTRY H_mf_sigmoids()
{
    const float x = anyx(), a = vf_real( "a" ), c = vf_real( "c" ), b = vf_real( "b" ), d = vf_real( "d" );
    const float s1 = 1.0f/( 1.0f + ffmath::exp( -a*( x - c ) ) ), s2 = 1.0f/( 1.0f + ffmath::exp( -b*( x - d ) ) );
    const float q[ 4 ] = { a, c, b, d };
    vf_eq( memb( fis::sigmf, q, x ), unit( s1 ), "sigmoid" );
    vf_eq( memb( fis::dsigmf, q, x ), unit( ffmath::absf( s1 - s2 ) ), "difference of sigmoids" );
    vf_eq( memb( fis::psigmf, q, x ), unit( ffmath::absf( s1*s2 ) ), "product of sigmoids" );
}
static void spair( const float x, const float t, const float w )       /* x lies t after the start of a slope of width w */
{
    const float q[ 2 ] = { x - t, x - t + w };
    const float l = t/w, r = ( t - w )/w;
    const float y = ( t <= 0.0f ) ? 0.0f : ( ( t >= w ) ? 1.0f : ( ( t + t < w ) ? 2.0f*l*l : 1.0f - 2.0f*r*r ) );
    vf_eq( memb( fis::smf, q, x ), unit( y ), "s-shape" );
    vf_eq( memb( fis::zmf, q, x ), unit( 1.0f - y ), "z-shape" );
}
ENTRY H_mf_sz()
{
    const float x = anyx(), t = vf_real( "t" ), w = positive( "w" );
    spair( x, w*0.5f, w );
    spair( x, 0.0f, w );
    spair( x, w, w );
    vf_assume( t + t != w );
    spair( x, t, w );
}
static float sval( float t, float w )
{
    const float l = t/w, r = ( t - w )/w;
    return ( t <= 0.0f ) ? 0.0f : ( ( t >= w ) ? 1.0f : ( ( t + t < w ) ? 2.0f*l*l : 1.0f - 2.0f*r*r ) );
}
static void pishape( const float x, const float t, const float w, const float g, const float v )
{
    const float q[ 4 ] = { x - t, x - t + w, x - t + w + g, x - t + w + g + v };
    vf_eq( memb( fis::pimf, q, x ), unit( ffmath::absf( sval( t, w )*( 1.0f - sval( t - w - g, v ) ) ) ), "pi-shape" );
}
ENTRY H_mf_pi()
{
    const float x = anyx(), w = positive( "w" ), v = positive( "v" ), g = positive( "g" );
    pishape( x, 0.5f*w, w, g, v );
    pishape( x, w + g + 0.5f*v, w, g, v );
    pishape( x, w, w, 0.0f, v );
    { const float t = positive( "t" ); vf_assume( t < w ); vf_assume( t + t != w ); pishape( x, t, w, g, v ); pishape( x, -t, w, g, v ); }
    { const float t = positive( "u" ); vf_assume( t < v ); vf_assume( t + t != v ); pishape( x, w + g + t, w, g, v ); pishape( x, w + g + v + t, w, g, v ); }
    { const float t = positive( "s" ); vf_assume( t < g ); pishape( x, w + t, w, g, v ); }
}
ENTRY H_mf_linear()
{
    const float x = anyx(), a = vf_real( "a" );
    const float w = positive( "w" ), b = a + w;
    const float q[ 2 ] = { a, b };
    const float ramp = ( x <= a ) ? 0.0f : ( ( x >= b ) ? 1.0f : ( x - a )/( b - a ) );
    vf_eq( memb( fis::linsmf, q, x ), ramp, "linear s-shape" );
    vf_eq( memb( fis::linzmf, q, x ), 1.0f - ramp, "linear z-shape" );
    vf_eq( memb( fis::rectmf, q, x ), ( ( x >= a ) && ( x <= b ) ) ? 1.0f : 0.0f, "rectangle" );
    const float e[ 2 ] = { a, a };
    vf_eq( memb( fis::linsmf, e, x ), ( x < a ) ? 0.0f : 1.0f, "step up" );
    vf_eq( memb( fis::linzmf, e, x ), ( x < a ) ? 1.0f : 0.0f, "step down" );
    vf_assume( w > 0.001f );
    const float r[ 2 ] = { b, a };
    vf_eq( memb( fis::linsmf, r, x ), 0.0f, "reversed ramp is empty" );
    vf_eq( memb( fis::linzmf, r, x ), 0.0f, "reversed ramp is empty" );
}
ENTRY H_mf_others()
{
    const float x = anyx(), c = vf_real( "c" );
    const float w = positive( "w" );
    { const float q[ 2 ] = { c, w };
      vf_eq( memb( fis::cosmf, q, x ), ( ( x < c - 0.5f*w ) || ( x > c + 0.5f*w ) ) ? 0.0f : unit( 0.5f*( 1.0f + ffmath::cos( 2.0f/w*3.14159265358979323846f*( x - c ) ) ) ), "cosine" ); }
    { const float q[ 1 ] = { c };
      vf_eq( memb( fis::constantmf, q, x ), unit( c ), "constant" );
      vf_eq( memb( fis::custommf, q, x ), unit( c ), "default set" );
      vf_eq( memb( fis::singletonmf, q, c ), ( ( c >= -1000.0f ) && ( c <= 1000.0f ) ) ? 1.0f : memb( fis::singletonmf, q, c ), "singleton at its point" );
      vf_assume( ( x > c + 0.001f ) || ( x < c - 0.001f ) );
      vf_eq( memb( fis::singletonmf, q, x ), 0.0f, "singleton elsewhere" ); }
}
ENTRY H_mf_concave()
{
    const float x = anyx(), i = vf_real( "i" );
    const float w = positive( "w" );
    { const float e = i + w, q[ 2 ] = { i, e }; vf_eq( memb( fis::concavemf, q, x ), ( x < e ) ? w/( ( e - i ) + ( e - x ) ) : 1.0f, "concave, rising" ); }
    { const float e = i - w, q[ 2 ] = { i, e }; vf_eq( memb( fis::concavemf, q, x ), ( x > e ) ? w/( ( i - e ) + ( x - e ) ) : 1.0f, "concave, falling" ); }
}
/* sets whose parameters coincide, and negative widths */
ENTRY H_mf_point()
{
    const float x = anyx(), a = vf_real( "a" ), w = positive( "w" );
    { const float q[ 3 ] = { a, a, a }; vf_eq( memb( fis::trimf, q, x ), ( x == a ) ? 1.0f : 0.0f, "triangle of width zero" ); }
    { const float q[ 4 ] = { a, a, a, a }; vf_eq( memb( fis::trapmf, q, x ), ( x == a ) ? 1.0f : 0.0f, "trapezoid of width zero" ); }
    { const float q[ 4 ] = { a, a + w, a + w, a + w + w }; vf_eq( memb( fis::trapmf, q, x ), tri( x, a, a + w, a + w + w ), "trapezoid with a flat part of width zero" ); }
    { const float q[ 4 ] = { a, a, a + w, a + w }; vf_eq( memb( fis::trapmf, q, x ), ( ( x >= a ) && ( x <= a + w ) ) ? 1.0f : 0.0f, "trapezoid with vertical sides" ); }
    { const float q[ 2 ] = { a, a };
      vf_eq( memb( fis::rectmf, q, x ), ( x == a ) ? 1.0f : 0.0f, "rectangle of width zero" );
      vf_eq( memb( fis::concavemf, q, x ), ( x < a ) ? 0.0f : 1.0f, "concave set with coinciding parameters" );
      vf_eq( memb( fis::smf, q, x ), ( x <= a ) ? 0.0f : 1.0f, "s-shape of width zero" );
      vf_eq( memb( fis::zmf, q, x ), ( x <= a ) ? 1.0f : 0.0f, "z-shape of width zero" ); }
    { const float q[ 4 ] = { a, a, a + w, a + w }; vf_eq( memb( fis::pimf, q, x ), ( ( x > a ) && ( x <= a + w ) ) ? 1.0f : 0.0f, "pi-shape with vertical sides" ); }
}
ENTRY H_mf_mirrored()
{
    const float x = anyx(), t = vf_real( "t" ), b = vf_real( "b" ), a = positive( "a" ), d = positive( "d" ), a2 = positive( "a2" );
    const float c = x - t, u = t/a;
    { const float q[ 3 ] = { -a, b, c }; vf_eq( memb( fis::gbellmf, q, x ), unit( 1.0f/( 1.0f + ffmath::pow( ffmath::absf( u ), 2.0f*b ) ) ), "generalised bell, negative width" ); }
    { const float q[ 2 ] = { -a, c }; vf_eq( memb( fis::gaussmf, q, x ), unit( ffmath::exp( -0.5f*u*u ) ), "gaussian, negative width" ); }
    { const float q[ 2 ] = { -a, c }; vf_eq( memb( fis::spikemf, q, x ), unit( ffmath::exp( -ffmath::absf( 10.0f*u ) ) ), "spike, negative width" ); }
    vf_assume( t != 0.0f );
    vf_assume( t + d != 0.0f );
    gauss2( x, t, t + d, a, a2 );          /* centres in reverse order: both slopes apply between them */
}
ENTRY H_mf_height()
{
    const float x = anyx(), a = vf_real( "a" ), h = vf_real( "h" );
    const float q[ 2 ] = { a, a + 2.0f };
    vf_eq( memb( fis::rectmf, q, x, h ), ( ( x >= a ) && ( x <= a + 2.0f ) ) ? unit( h ) : 0.0f, "the height scales the set and is limited to [0,1]" );
    vf_eq( memb( fis::linsmf, q, x, h ), unit( h )*unit( ( x - a )*0.5f ), "the height scales every degree and is limited to [0,1]" );
}

/* ------------------------------------------------------------------ Tsukamoto consequents: crisp value at the rule strength */
static float tsuka( fis::shapeMF s, const float *p, float w )
{
    const float c[ 1 ] = { w };
    fis::system<fis::Tsukamoto,1,1,1,1,1> f( R1 );
    float y = -77.0f;
    vf_check( f.setup(), "setup" );
    vf_check( f.setupInput( in0, -1.0f, 1.0f ) && f.setupOutput( out0, -5000.0f, 6000.0f ), "ranges" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, c ), "input set" );
    vf_check( f.setupOutputMF( out0, 0, s, p, 0.25f ), "output set" );
    vf_check( f.setInput( in0, 0.123f ), "input value" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_check( f.getOutput( out0, y ), "output value" );
    return y;
}
static float strength() { const float w = vf_real( "w" ); vf_assume( w > 0.0f ); vf_assume( w <= 1.0f ); return w; }
static float range( float v ) { return clamp( v, -5000.0f, 6000.0f ); }
ENTRY H_tsuka_linear()
{
    const float w = strength(), a = vf_real( "a" ), b = vf_real( "b" );
    const float q[ 2 ] = { a, b };
    vf_eq( tsuka( fis::tlinsmf, q, w ), range( a + w*( b - a ) ), "rising line is inverted" );
    vf_eq( tsuka( fis::trampmf, q, w ), range( a + w*( b - a ) ), "ramp is inverted" );
    vf_eq( tsuka( fis::tlinzmf, q, w ), range( b - w*( b - a ) ), "falling line is inverted" );
    vf_eq( tsuka( fis::tconcavemf, q, w ), range( 2.0f*b - a - ( b - a )/w ), "concave set is inverted" );
}
ENTRY H_tsuka_curved()
{
    const float w = strength(), a = vf_real( "a" ), d = positive( "d" ), b = a + d;
    const float q[ 2 ] = { a, b };
    const float k[ 2 ] = { a, a + 8.0f };
    vf_eq( tsuka( fis::tsmf, k, 0.5f ), range( a + 4.0f ), "s-shape at one half" );
    vf_eq( tsuka( fis::tzmf, k, 0.5f ), range( a + 4.0f ), "z-shape at one half" );
    vf_assume( w != 0.5f );
    vf_eq( tsuka( fis::tsmf, q, w ), range( ( w < 0.5f ) ? a + ffmath::sqrt( w*d*d*0.5f ) : b - ffmath::sqrt( ( 1.0f - w )*d*d*0.5f ) ), "s-shape is inverted" );
    vf_eq( tsuka( fis::tzmf, q, w ), range( ( w < 0.5f ) ? b - ffmath::sqrt( w*d*d*0.5f ) : a + ffmath::sqrt( ( 1.0f - w )*d*d*0.5f ) ), "z-shape is inverted" );
}
ENTRY H_tsuka_sigmoid()
{
    const float w = strength(), a = vf_real( "a" ), c = vf_real( "c" );
    vf_assume( a != 0.0f );
    const float q[ 2 ] = { a, c };
    vf_eq( tsuka( fis::tsigmf, q, 1.0f ), ( a > 0.0f ) ? 6000.0f : -5000.0f, "sigmoid at full strength is the end of the range" );
    vf_assume( w < 0.999f );
    vf_assume( w > 0.001f );
    vf_eq( tsuka( fis::tsigmf, q, w ), range( c - ffmath::log( 1.0f/w - 1.0f )/a ), "sigmoid is inverted" );
}

/* ------------------------------------------------------------------ operators and rule strengths */
enum : fis::tag { sA, sB, sC };
static float anyunit( const char *n ) { const float v = vf_real( n ); vf_assume( v >= 0.0f ); vf_assume( v <= 1.0f ); return v; }
static float mn( float a, float b ) { return ( a < b ) ? a : b; }
static float mx( float a, float b ) { return ( a > b ) ? a : b; }

/* one Sugeno rule over three inputs; each set is a constant */
static float rule3( const fis::rules *r, fis::paramValue andm, fis::paramValue orm, const float a, const float b, const float c )
{
    const float pa[ 1 ] = { a }, pb[ 1 ] = { b }, pc[ 1 ] = { c }, one[ 1 ] = { 1.0f };
    fis::system<fis::Sugeno,3,1,3,1,1> f( r );
    float y = -77.0f;
    vf_check( f.setup(), "setup" );
    vf_check( f.setParameter( fis::FIS_AND, andm ) && f.setParameter( fis::FIS_OR, orm ) && f.setDeFuzzMethod( fis::wtsum ), "parameters" );
    vf_check( f.setupOutput( out0, -5.0f, 5.0f ), "range" );
    vf_check( f.setupInputMF( in0, sA, fis::constantmf, pa ) && f.setupInputMF( in1, sB, fis::constantmf, pb ) && f.setupInputMF( in2, sC, fis::constantmf, pc ), "sets" );
    vf_check( f.setupOutputMF( out0, 0, fis::constantmf, one ), "output set" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_check( f.getOutput( out0, y ), "output value" );
    return y;
}
static const fis::rules RA[] = { FIS_RULES_BEGIN IF in0 IS sA AND in1 IS sB THEN out0 IS 0 END FIS_RULES_END };
static const fis::rules RO[] = { FIS_RULES_BEGIN IF in0 IS sA OR in1 IS sB THEN out0 IS 0 END FIS_RULES_END };
static const fis::rules RAO[] = { FIS_RULES_BEGIN IF in0 IS sA AND in1 IS sB OR in2 IS sC THEN out0 IS 0 END FIS_RULES_END };
static const fis::rules ROA[] = { FIS_RULES_BEGIN IF in0 IS sA OR in1 IS sB AND in2 IS sC THEN out0 IS 0 END FIS_RULES_END };
static const fis::rules RN[] = { FIS_RULES_BEGIN IF in0 IS_NOT sA AND in1 IS sB THEN out0 IS 0 END FIS_RULES_END };
static const fis::rules RNN[] = { FIS_RULES_BEGIN IF in0 IS sA OR in2 IS_NOT sC THEN out0 IS 0 END FIS_RULES_END };
ENTRY H_rule_min_max()
{
    const float a = anyunit( "a" ), b = anyunit( "b" ), c = anyunit( "c" );
    vf_eq( rule3( RA, fis::FIS_MIN, fis::FIS_MAX, a, b, c ), mn( a, b ), "AND as minimum" );
    vf_eq( rule3( RO, fis::FIS_MIN, fis::FIS_MAX, a, b, c ), mx( a, b ), "OR as maximum" );
    vf_eq( rule3( RN, fis::FIS_MIN, fis::FIS_MAX, a, b, c ), mn( 1.0f - a, b ), "negated premise" );
    vf_eq( rule3( RNN, fis::FIS_MIN, fis::FIS_MAX, a, b, c ), mx( a, 1.0f - c ), "negated premise" );
}
ENTRY H_rule_min_max3()
{
    const float a = anyunit( "a" ), b = anyunit( "b" ), c = anyunit( "c" );
    vf_eq( rule3( RAO, fis::FIS_MIN, fis::FIS_MAX, a, b, c ), mx( mn( a, b ), c ), "connectors apply from left to right" );
    vf_eq( rule3( ROA, fis::FIS_MIN, fis::FIS_MAX, a, b, c ), mn( mx( a, b ), c ), "connectors apply from left to right" );
}
ENTRY H_rule_prod_probor()
{
    const float a = anyunit( "a" ), b = anyunit( "b" ), c = anyunit( "c" );
    vf_eq( rule3( RA, fis::FIS_PROD, fis::FIS_PROBOR, a, b, c ), unit( a*b ), "AND as product" );
    vf_eq( rule3( RO, fis::FIS_PROD, fis::FIS_PROBOR, a, b, c ), unit( a + b - a*b ), "OR as probabilistic sum" );
    vf_eq( rule3( RAO, fis::FIS_PROD, fis::FIS_MAX, a, b, c ), mx( unit( a*b ), c ), "mixed operators" );
}
/* sets outside [0,1] are limited before use */
ENTRY H_rule_limits()
{
    const float a = vf_real( "a" ), b = vf_real( "b" );
    vf_eq( rule3( RA, fis::FIS_MIN, fis::FIS_MAX, a, b, 0.0f ), mn( unit( a ), unit( b ) ), "memberships are limited to [0,1]" );
    vf_eq( rule3( RNN, fis::FIS_MIN, fis::FIS_MAX, a, 0.0f, b ), mx( unit( a ), 1.0f - unit( b ) ), "memberships are limited to [0,1]" );
    vf_eq( rule3( RO, fis::FIS_MIN, fis::FIS_MAX, a, b, 0.0f ), mx( unit( a ), unit( b ) ), "memberships are limited to [0,1]" );
}
ENTRY H_rule_limits_prod()
{
    const float a = vf_real( "a" );
    static const float out[ 4 ] = { 2.0f, -1.0f, 0.25f, 5.0f };
    for ( size_t i = 0U ; i < 4U ; ++i ) {
        const float b = out[ i ];
        vf_eq( rule3( RA, fis::FIS_PROD, fis::FIS_PROBOR, a, b, 0.0f ), unit( unit( a )*unit( b ) ), "memberships are limited before the product" );
        vf_eq( rule3( RO, fis::FIS_PROD, fis::FIS_PROBOR, b, a, 0.0f ), unit( unit( a ) + unit( b ) - unit( a )*unit( b ) ), "memberships are limited before the probabilistic sum" );
        vf_eq( rule3( RN, fis::FIS_PROD, fis::FIS_PROBOR, b, a, 0.0f ), unit( ( 1.0f - unit( b ) )*unit( a ) ), "memberships are limited before they are negated" );
    }
}

/* rules one after the other: each starts afresh, also after a rule of strength zero or one */
static const fis::rules RCH[] = { FIS_RULES_BEGIN
    IF in0 IS sA AND in1 IS sB THEN out0 IS 0 END
    IF in1 IS sB THEN out0 IS 0 END
    IF in0 IS_NOT sA OR in1 IS sB THEN out0 IS 0 END
    IF in0 IS sA THEN out0 IS 0 END
FIS_RULES_END };
static void chain( const fis::rules *r, const unsigned outputs, const bool weighted )
{
    const float a = anyunit( "a" ), b = anyunit( "b" );
    const float pa[ 1 ] = { a }, pb[ 1 ] = { b }, one[ 1 ] = { 1.0f };
    float wt[ 4 ] = { 1.0f, 0.25f, 2.0f, -1.0f };
    fis::instance f;
    fis::input xi[ 2 ];
    fis::output xo[ 2 ];
    fis::mf mi[ 2 ], mo[ 1 ];
    float *st = reinterpret_cast<float*>( vf_buf( 4U*sizeof( float ), "strengths" ) );
    vf_check( f.setup( fis::Sugeno, xi, 2U, xo, outputs, mi, 2U, mo, 1U, r, 4U, st ), "setup" );
    vf_check( f.setupInputMF( in0, sA, fis::constantmf, pa ) && f.setupInputMF( in1, sB, fis::constantmf, pb ) && f.setupOutputMF( out0, 0, fis::constantmf, one ), "sets" );
    if ( weighted ) vf_check( f.setRuleWeights( wt ), "weights" );
    for ( int pass = 0 ; pass < 2 ; ++pass ) {
        for ( size_t i = 0U ; i < 4U ; ++i ) st[ i ] = 77.0f;
        vf_check( f.fuzzify() && f.inference(), "evaluation" );
        vf_eq( st[ 0 ], mn( a, b ), "first rule" );
        vf_eq( st[ 1 ], weighted ? b*0.25f : b, "a rule of one premise after a conjunction" );
        vf_eq( st[ 2 ], mx( 1.0f - a, b ), "a disjunction after a rule of one premise" );
        vf_eq( st[ 3 ], weighted ? 0.0f : a, "a rule of one premise after a disjunction" );
    }
}
ENTRY H_rule_chain() { chain( RCH, 1U, false ); }
ENTRY H_rule_chain2() { chain( RCH, 2U, false ); }
ENTRY H_rule_chain_weighted() { chain( RCH, 1U, true ); }
/* several rules, several outputs, weights */
static const fis::rules RS[] = { FIS_RULES_BEGIN
    IF in0 IS sA THEN out0 IS 0 AND out1 IS 2 END
    IF in1 IS sB AND in0 IS_NOT sA THEN out1 IS 3 END
    IF in1 IS_NOT sB THEN out0 IS 1 END
FIS_RULES_END };
template <fis::type T>
static void multi( const bool weighted, const bool average )
{
    const float a = vf_real( "a" ), b = vf_real( "b" );
    vf_assume( a > 0.0f ); vf_assume( a < 0.5f ); vf_assume( b > 0.0f ); vf_assume( b < 0.5f );
    const float pa[ 1 ] = { a }, pb[ 1 ] = { b };
    const float z0[ 1 ] = { vf_real( "z0" ) }, z1[ 1 ] = { vf_real( "z1" ) }, z2[ 1 ] = { vf_real( "z2" ) }, z3[ 1 ] = { vf_real( "z3" ) };
    float wt[ 3 ] = { 0.5f, vf_real( "wt" ), 2.0f };
    vf_assume( wt[ 1 ] > 0.0f ); vf_assume( wt[ 1 ] < 1.0f );
    const float k0 = weighted ? 0.5f : 1.0f, k1 = weighted ? wt[ 1 ] : 1.0f;
    fis::system<T,2,2,2,4,3> f( RS );
    vf_check( f.setup(), "setup" );
    vf_check( f.setParameter( fis::FIS_AND, fis::FIS_PROD ), "parameters" );
    vf_check( average || f.setDeFuzzMethod( fis::wtsum ), "parameters" );
    vf_check( f.setupInput( in0, 0.0f, 1.0f ) && f.setupInput( in1, 0.0f, 1.0f ), "range" );
    vf_check( f.setupOutput( out0, -5000.0f, 6000.0f ) && f.setupOutput( out1, -7000.0f, 8000.0f ), "range" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, pa ) && f.setupInputMF( in1, 1, fis::constantmf, pb ), "sets" );
    vf_check( f.setupOutputMF( out0, 0, fis::constantmf, z0 ) && f.setupOutputMF( out0, 1, fis::constantmf, z1 ), "sets" );
    vf_check( f.setupOutputMF( out1, 2, fis::constantmf, z2 ) && f.setupOutputMF( out1, 3, fis::constantmf, z3 ), "sets" );
    vf_check( !f.setRuleWeights( nullptr ), "missing weights are rejected" );
    if ( weighted ) vf_check( f.setRuleWeights( wt ), "weights" );
    const float w0 = a*k0, w1 = b*( 1.0f - a )*k1, w2 = 1.0f - b;
    for ( int pass = 0 ; pass < 2 ; ++pass ) {       /* the second evaluation starts from the state left by the first */
        vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
        float y0 = 0.0f, y1 = 0.0f;
        vf_check( f.getOutput( out0, y0 ) && f.getOutput( out1, y1 ), "output values" );
        const float s0 = w0*z0[ 0 ] + w2*z1[ 0 ], s1 = w0*z2[ 0 ] + w1*z3[ 0 ];
        vf_eq( y0, clamp( average ? s0/( w0 + w2 ) : s0, -5000.0f, 6000.0f ), "first output combines exactly its own rules" );
        vf_eq( y1, clamp( average ? s1/( w0 + w1 ) : s1, -7000.0f, 8000.0f ), "second output combines exactly its own rules" );
        vf_eq( f[ out0 ], y0, "indexed output" );
        vf_eq( f[ out1 ], y1, "indexed output" );
    }
}
ENTRY H_sugeno_sum() { multi<fis::Sugeno>( false, false ); }
ENTRY H_sugeno_avg() { multi<fis::Sugeno>( false, true ); }
ENTRY H_sugeno_weighted() { multi<fis::Sugeno>( true, true ); }
ENTRY H_sugeno_weighted_sum() { multi<fis::Sugeno>( true, false ); }

/* linear consequents read every input, after limiting it to its range */
ENTRY H_sugeno_linear()
{
    const float k[ 4 ] = { vf_real( "k0" ), vf_real( "k1" ), vf_real( "k2" ), vf_real( "k3" ) }, one[ 1 ] = { 1.0f };
    const float x0 = vf_real( "x0" ), x1 = vf_real( "x1" ), lo = vf_real( "lo" );
    const float hi = lo + positive( "span" );
    fis::system<fis::Sugeno,3,1,1,1,1> f( R1 );
    vf_check( f.setup(), "setup" );
    vf_check( f.setupInput( in0, lo, hi ) && f.setupInput( in1, -3.0f, 4.0f ) && f.setupOutput( out0, -5000.0f, 6000.0f ), "ranges" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, one ) && f.setupOutputMF( out0, 0, fis::linearmf, k ), "sets" );
    f << in0 << x0 << in1 << x1 << in2 << 0.5f;
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( f[ out0 ], clamp( clamp( x0, lo, hi )*k[ 0 ] + clamp( x1, -3.0f, 4.0f )*k[ 1 ] + 0.5f*k[ 2 ] + k[ 3 ], -5000.0f, 6000.0f ), "linear consequent" );
}
/* more inputs than one would expect */
ENTRY H_sugeno_linear_wide()
{
    const size_t n = 40U;
    float k[ 41 ];
    static const float one[ 1 ] = { 1.0f };
    fis::input xi[ n ];
    fis::output xo[ 1 ];
    fis::mf mi[ 1 ], mo[ 1 ];
    float st[ 1 ], want = 0.0f;
    fis::instance f;
    vf_check( f.setup( fis::Sugeno, xi, n, xo, 1U, mi, 1U, mo, 1U, R1, 1U, st ), "setup" );
    vf_check( f.setupOutput( out0, -50000.0f, 60000.0f ), "range" );
    for ( size_t i = 0U ; i < n ; ++i ) {
        const float x = ( 3U == i%18U ) ? vf_real( "x" ) : static_cast<float>( i );
        vf_check( f.setupInput( static_cast<fis::tag>( i ), -30.0f, 30.0f ) && f.setInput( static_cast<fis::tag>( i ), x ), "input" );
        k[ i ] = static_cast<float>( i + 1U )/8.0f;
        want += k[ i ]*clamp( x, -30.0f, 30.0f );
    }
    k[ n ] = vf_real( "k" );
    vf_assume( k[ n ] > -1000.0f ); vf_assume( k[ n ] < 1000.0f );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, one ) && f.setupOutputMF( out0, 0, fis::linearmf, k ), "sets" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( f[ out0 ], want + k[ n ], "every input takes part in a linear consequent" );
}
/* the output is limited to its range whichever the system */
ENTRY H_sugeno_range()
{
    for ( int t = 0 ; t < 3 ; ++t ) {
        const float z[ 2 ] = { vf_real( "z" ), vf_real( "y" ) };
        static const float one[ 1 ] = { 1.0f };
        fis::instance f;
        fis::input xi[ 1 ];
        fis::output xo[ 1 ];
        fis::mf mi[ 1 ], mo[ 1 ];
        float st[ 1 ];
        vf_check( f.setup( ( t < 2 ) ? fis::Sugeno : fis::Tsukamoto, xi, xo, mi, mo, R1, st ), "setup" );
        vf_check( f.setDeFuzzMethod( ( 0 == t%2 ) ? fis::wtaver : fis::wtsum ), "method" );
        vf_check( f.setupOutput( out0, -3.0f, 4.0f ) && f.setupInputMF( in0, 0, fis::constantmf, one ), "range" );
        vf_check( f.setupOutputMF( out0, 0, ( t < 2 ) ? fis::constantmf : fis::tlinsmf, z ), "set" );
        vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
        vf_eq( f[ out0 ], clamp( ( t < 2 ) ? z[ 0 ] : z[ 1 ], -3.0f, 4.0f ), "the output is limited to its range" );
    }
}
/* no rule fires */
ENTRY H_sugeno_none()
{
    const float z[ 1 ] = { vf_real( "z" ) }, none[ 1 ] = { 0.0f };
    fis::system<fis::Sugeno,1,1,1,1,1> f( R1 );
    vf_check( f.setup() && f.setDeFuzzMethod( fis::wtsum ), "setup" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, none ) && f.setupOutputMF( out0, 0, fis::constantmf, z ), "sets" );
    vf_check( f.setupOutput( out0, -3.0f, 4.0f ), "ranges" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( f[ out0 ], 0.0f, "no rule contributes" );
    vf_check( f.setDeFuzzMethod( fis::wtaver ), "average" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    const float y = f[ out0 ];
    vf_check( ( y >= -3.0f ) && ( y <= 4.0f ), "the output stays in its range when no rule fires" );
}

/* ------------------------------------------------------------------ Mamdani: the aggregated curve is supplied point by point */
static const float *g_curve;
static size_t g_at, g_wrap;
static float curve( const fis::ioBase * const, const float *, const size_t )
{
    const float y = g_curve[ g_at ];
    g_at = ( g_at + 1U == g_wrap ) ? 0U : g_at + 1U;
    return y;
}
static float full( const fis::ioBase * const, const float *, const size_t ) { return 1.0f; }
typedef fis::system<fis::Mamdani,1,1,1,1,1> mam1;
static float mamdani( mam1& f, const fis::deFuzzMethod m, const float *y, const float lo, const float hi )
{
    g_curve = y;
    g_at = 0U;
    g_wrap = 100U;
    vf_check( f.setup(), "setup" );
    vf_check( f.setDeFuzzMethod( m ), "method" );
    vf_check( f.getNumberOfPoints() == 100U, "one hundred points by default" );
    vf_check( f.setupOutput( out0, lo, hi ), "range" );
    vf_check( f.setupInputMF( in0, 0, full, nullptr ) && f.setupOutputMF( out0, 0, curve, nullptr ), "sets" );
    vf_check( f.setInput( in0, 0.0f ) && f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    float v = -77.0f;
    vf_check( f.getOutput( out0, v ), "output value" );
    return v;
}
static float point( size_t k, float lo, float hi ) { return lo + ( static_cast<float>( k ) + 0.5f )*( hi - lo )/100.0f; }
ENTRY H_defuzz_centroid()
{
    float y[ 100 ], num = 0.0f, den = 0.0f;
    const float lo = vf_real( "lo" ), w = vf_real( "w" );
    vf_assume( w > 0.0f );
    for ( size_t k = 0U ; k < 100U ; ++k ) {
        y[ k ] = ( 0U == k%16U ) ? anyunit( "y" ) : static_cast<float>( ( k*37U )%11U )/16.0f;
        num += y[ k ]*point( k, lo, lo + w );
        den += y[ k ];
    }
    mam1 f( R1 );
    vf_eq( mamdani( f, fis::centroid, y, lo, lo + w ), clamp( num/den, lo, lo + w ), "centre of gravity of the aggregated curve" );
}
static void extremes( const float *y, const size_t first, const size_t mid_last, const size_t last, const size_t half )
{
    const float lo = vf_real( "lo" ), w = vf_real( "w" );
    vf_assume( w > 0.0f );
    mam1 a( R1 ), b( R1 ), c( R1 ), d( R1 );
    vf_eq( mamdani( a, fis::som, y, lo, lo + w ), point( first, lo, lo + w ), "smallest of maximum" );
    vf_eq( mamdani( b, fis::lom, y, lo, lo + w ), point( last, lo, lo + w ), "largest of maximum" );
    vf_eq( mamdani( c, fis::mom, y, lo, lo + w ), 0.5f*( point( first, lo, lo + w ) + point( mid_last, lo, lo + w ) ), "middle of maximum" );
    vf_eq( mamdani( d, fis::bisector, y, lo, lo + w ), point( half, lo, lo + w ), "bisector" );
}
static void profile( const size_t p0, const size_t p1, const size_t q0, const size_t q1, const float top, const float second, const float base )
{
    float y[ 100 ], area = 0.0f, acc = 0.0f;
    for ( size_t k = 0U ; k < 100U ; ++k ) {
        y[ k ] = ( ( k >= p0 ) && ( k <= p1 ) ) ? top : ( ( ( k >= q0 ) && ( k <= q1 ) ) ? second : base );
        area += y[ k ];
    }
    size_t h = 0U;
    for ( ; h < 100U ; ++h ) {
        acc += y[ h ];
        if ( acc >= 0.5f*area ) break;
    }
    const size_t first = ( second > top ) ? q0 : p0, mid = ( second > top ) ? q1 : p1, last = ( ( second >= top ) && ( q1 < 100U ) ) ? q1 : p1;
    extremes( y, first, mid, last, h );
}
ENTRY H_defuzz_profiles()
{
    profile( 20U, 40U, 60U, 70U, 0.75f, 0.5f, 0.0f );
    profile( 20U, 40U, 60U, 70U, 0.5f, 0.75f, 0.25f );
    profile( 5U, 5U, 90U, 95U, 0.5f, 0.5f, 0.125f );
    profile( 0U, 99U, 200U, 200U, 0.5f, 0.0f, 0.0f );
    profile( 0U, 0U, 99U, 99U, 0.25f, 1.0f, 0.0f );
    profile( 0U, 0U, 99U, 99U, 1.0f, 0.25f, 0.0f );
    profile( 98U, 99U, 10U, 97U, 1.0f, 0.5f, 0.0f );
    profile( 0U, 99U, 200U, 200U, 0.0f, 0.0f, 0.0f );
}
/* three peaks of unknown height */
ENTRY H_defuzz_peaks()
{
    float y[ 100 ];
    const float a = anyunit( "a" ), b = anyunit( "b" ), c = anyunit( "c" );
    vf_assume( a > 0.125f ); vf_assume( b > 0.125f ); vf_assume( c > 0.125f );
    for ( size_t k = 0U ; k < 100U ; ++k ) y[ k ] = ( 10U == k ) ? a : ( ( 50U == k ) ? b : ( ( 93U == k ) ? c : 0.0f ) );
    mam1 f( R1 ), g( R1 );
    const float s = mamdani( f, fis::som, y, 0.0f, 100.0f );
    vf_eq( s, ( ( a >= b ) && ( a >= c ) ) ? 10.5f : ( ( b >= c ) ? 50.5f : 93.5f ), "smallest of maximum" );
    const float l = mamdani( g, fis::lom, y, 0.0f, 100.0f );
    vf_eq( l, ( ( c >= b ) && ( c >= a ) ) ? 93.5f : ( ( b >= a ) ? 50.5f : 10.5f ), "largest of maximum" );
}
/* the same object evaluated again with a lower curve: nothing is left of the first */
ENTRY H_defuzz_repeat()
{
    static const fis::deFuzzMethod method[ 5 ] = { fis::centroid, fis::bisector, fis::mom, fis::lom, fis::som };
    static const float want[ 5 ] = { 75.5f, 75.5f, 75.5f, 80.5f, 70.5f };
    const float h = vf_real( "h" );
    vf_assume( h > 0.001f ); vf_assume( h <= 1.0f );
    for ( size_t m = 0U ; m < 5U ; ++m ) {
        float y[ 100 ], z[ 100 ];
        for ( size_t k = 0U ; k < 100U ; ++k ) {
            y[ k ] = ( ( k >= 10U ) && ( k <= 20U ) ) ? 1.0f : ( ( 99U == k ) ? 1.0f : 0.0f );
            z[ k ] = ( ( k >= 70U ) && ( k <= 80U ) ) ? h : 0.0f;
        }
        mam1 f( R1 );
        (void)mamdani( f, method[ m ], y, 0.0f, 100.0f );
        for ( int pass = 0 ; pass < 2 ; ++pass ) {
            g_curve = z;
            g_at = 0U;
            vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
            vf_eq( f[ out0 ], want[ m ], "a second evaluation depends on its own curve alone" );
            g_curve = y;
            g_at = 0U;
            vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
        }
    }
}
/* negated consequents of sets with a height */
ENTRY H_region_height()
{
    const float a = vf_real( "a" ), b = vf_real( "b" ), h = vf_real( "h" );
    vf_assume( a > 0.0f ); vf_assume( a <= 1.0f ); vf_assume( b > 0.0f ); vf_assume( b <= 1.0f );
    static const fis::rules r[] = { FIS_RULES_BEGIN
        IF in0 IS 0 THEN out0 IS_NOT 0 AND out1 IS 1 END
        IF in1 IS 1 THEN out1 IS_NOT 1 AND out0 IS_NOT 0 END
    FIS_RULES_END };
    const float pa[ 1 ] = { a }, pb[ 1 ] = { b }, q0[ 2 ] = { 20.0f, 60.0f };
    fis::instance f;
    fis::input xi[ 2 ];
    fis::output xo[ 2 ];
    fis::mf mi[ 2 ], mo[ 2 ];
    float st[ 2 ];
    float *x0 = vf_floats( 100U, "x0" ), *y0 = vf_floats( 100U, "y0" ), *x1 = vf_floats( 100U, "x1" ), *y1 = vf_floats( 100U, "y1" );
    vf_check( f.setup( fis::Mamdani, xi, xo, mi, mo, r, st ), "setup" );
    vf_check( f.setupOutput( out0, 0.0f, 100.0f ) && f.setupOutput( out1, 0.0f, 100.0f ), "range" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, pa ) && f.setupInputMF( in1, 1, fis::constantmf, pb ), "sets" );
    vf_check( f.setupOutputMF( out0, 0, fis::rectmf, q0, h ) && f.setupOutputMF( out1, 1, fis::rectmf, q0, 0.25f ), "sets" );
    vf_check( xo[ 0 ].storeAggregatedRegion( x0, y0, 100U ) && xo[ 1 ].storeAggregatedRegion( x1, y1, 100U ), "regions" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    for ( size_t k = 5U ; k < 100U ; k += 30U ) {
        const bool inside = ( k >= 20U ) && ( k < 60U );
        const float v = inside ? unit( h ) : 0.0f, u = inside ? 0.25f : 0.0f;
        vf_eq( y0[ k ], mx( mn( a, 1.0f - v ), mn( b, 1.0f - v ) ), "a negated consequent is one minus its set" );
        vf_eq( y1[ k ], mx( mn( a, u ), mn( b, 1.0f - u ) ), "a negated consequent is one minus its set" );
    }
}
ENTRY H_region_scaled()
{
    const float h = vf_real( "h" ), one[ 1 ] = { 1.0f }, half[ 1 ] = { 0.5f };
    static const fis::rules r[] = { FIS_RULES_BEGIN IF in0 IS 0 THEN out0 IS 0 END FIS_RULES_END };
    fis::instance f;
    fis::input xi[ 1 ];
    fis::output xo[ 1 ];
    fis::mf mi[ 1 ], mo[ 1 ];
    float st[ 1 ];
    float *x0 = vf_floats( 100U, "x0" ), *y0 = vf_floats( 100U, "y0" );
    vf_check( f.setup( fis::Mamdani, xi, xo, mi, mo, r, st ), "setup" );
    vf_check( f.setupOutput( out0, 0.0f, 100.0f ), "range" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, one ) && f.setupOutputMF( out0, 0, fis::constantmf, half, h ), "sets" );
    vf_check( xo[ 0 ].storeAggregatedRegion( x0, y0, 100U ), "regions" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    for ( size_t k = 0U ; k < 100U ; k += 33U ) vf_eq( y0[ k ], 0.5f*unit( h ), "the height of an output set is limited to [0,1]" );
}
/* implication, aggregation, negated consequents, stored region */
static const fis::rules RM[] = { FIS_RULES_BEGIN
    IF in0 IS sA THEN out0 IS 0 END
    IF in1 IS sB THEN out0 IS_NOT 1 END
FIS_RULES_END };
static void region( const fis::paramValue imp, const fis::paramValue agg )
{
    const float a = vf_real( "a" ), b = vf_real( "b" ), u = vf_real( "u" ), v = vf_real( "v" );
    vf_assume( a > 0.0f ); vf_assume( a < 1.0f ); vf_assume( b > 0.0f ); vf_assume( b < 1.0f );
    vf_assume( u > 0.0f ); vf_assume( u < 1.0f ); vf_assume( v > 0.0f ); vf_assume( v < 1.0f );
    const float pa[ 1 ] = { a }, pb[ 1 ] = { b }, pu[ 1 ] = { u }, pv[ 1 ] = { v };
    fis::instance f;
    fis::input xi[ 2 ];
    fis::output xo[ 1 ];
    fis::mf mi[ 2 ], mo[ 2 ];
    float st[ 2 ];
    float *xs = vf_floats( 100U, "xs" ), *ys = vf_floats( 100U, "ys" );
    vf_check( !xo[ 0 ].storeAggregatedRegion( xs, ys, 100U ), "the region needs a configured system" );
    vf_check( f.setup( fis::Mamdani, xi, xo, mi, mo, RM, st ), "setup" );
    vf_check( f.setParameter( fis::FIS_Implication, imp ) && f.setParameter( fis::FIS_Aggregation, agg ), "parameters" );
    vf_check( f.setupOutput( out0, 0.0f, 100.0f ), "range" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, pa ) && f.setupInputMF( in1, 1, fis::constantmf, pb ), "sets" );
    vf_check( f.setupOutputMF( out0, 0, fis::constantmf, pu ) && f.setupOutputMF( out0, 1, fis::constantmf, pv ), "sets" );
    vf_check( !xo[ 0 ].storeAggregatedRegion( xs, ys, 99U ), "a short region is rejected" );
    vf_check( !xo[ 0 ].storeAggregatedRegion( nullptr, ys, 100U ) && !xo[ 0 ].storeAggregatedRegion( xs, nullptr, 100U ), "a missing region is rejected" );
    vf_check( xo[ 0 ].storeAggregatedRegion( xs, ys, 100U ), "region" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    const float r1 = ( fis::FIS_MIN == imp ) ? mn( a, u ) : unit( a*u ), r2 = ( fis::FIS_MIN == imp ) ? mn( b, 1.0f - v ) : unit( b*( 1.0f - v ) );
    const float want = ( fis::FIS_MAX == agg ) ? mx( r1, r2 ) : ( ( fis::FIS_SUM == agg ) ? unit( r1 + r2 ) : unit( r1 + r2 - r1*r2 ) );
    for ( size_t k = 0U ; k < 100U ; k += 33U ) {
        vf_eq( xs[ k ], static_cast<float>( k ) + 0.5f, "abscissa of the stored region" );
        vf_eq( ys[ k ], want, "implication and aggregation of the rules" );
    }
}
ENTRY H_region_min_max() { region( fis::FIS_MIN, fis::FIS_MAX ); }
ENTRY H_region_min_sum() { region( fis::FIS_MIN, fis::FIS_SUM ); }
ENTRY H_region_prod_max() { region( fis::FIS_PROD, fis::FIS_MAX ); }
ENTRY H_region_prod_sum() { region( fis::FIS_PROD, fis::FIS_SUM ); }
ENTRY H_region_prod_probor() { region( fis::FIS_PROD, fis::FIS_PROBOR ); }

/* setup selects minimum, maximum, minimum and maximum, whatever the object was used for before */
static void other( fis::instance& f, const fis::type t, fis::input (&xi)[ 2 ], fis::output (&xo)[ 1 ], fis::mf (&mi)[ 2 ], fis::mf (&mo)[ 2 ], float (&st)[ 2 ] )
{
    vf_check( f.setup( t, xi, xo, mi, mo, RM, st ), "setup" );
    vf_check( f.setParameter( fis::FIS_AND, fis::FIS_PROD ) && f.setParameter( fis::FIS_OR, fis::FIS_PROBOR ), "operators" );
    vf_check( f.setParameter( fis::FIS_Implication, fis::FIS_PROD ) && f.setParameter( fis::FIS_Aggregation, fis::FIS_SUM ), "operators" );
    vf_check( f.setDeFuzzMethod( ( fis::Mamdani == t ) ? fis::lom : fis::wtsum ), "method" );
}
static const fis::rules RD[] = { FIS_RULES_BEGIN
    IF in0 IS 0 AND in1 IS 1 THEN out0 IS 0 END
    IF in0 IS 0 OR in1 IS 1 THEN out0 IS 1 END
FIS_RULES_END };
static void again_sugeno( const fis::type before, const bool used )
{
    const float a = anyunit( "a" ), b = anyunit( "b" );
    vf_assume( a > 0.0f ); vf_assume( b > 0.0f );
    const float pa[ 1 ] = { a }, pb[ 1 ] = { b }, z0[ 1 ] = { vf_real( "z0" ) }, z1[ 1 ] = { vf_real( "z1" ) };
    fis::instance f;
    fis::input xi[ 2 ];
    fis::output xo[ 1 ];
    fis::mf mi[ 2 ], mo[ 2 ];
    float st[ 2 ];
    if ( used ) {
        /* an evaluation that stops inside a malformed rule leaves nothing behind */
        static const fis::rules bad[] = { FIS_RULES_BEGIN IF in0 IS 0 OR in1 IS 1 AND 7, 1 FIS_RULES_END };
        other( f, before, xi, xo, mi, mo, st );
        vf_check( f.setup( before, xi, xo, mi, mo, bad, st ), "setup" );
        vf_check( f.setupInputMF( in0, 0, fis::constantmf, pa ) && f.setupInputMF( in1, 1, fis::constantmf, pb ), "sets" );
        vf_check( f.fuzzify() && !f.inference(), "malformed rules rejected" );
        other( f, before, xi, xo, mi, mo, st );
    }
    vf_check( f.setup( fis::Sugeno, xi, xo, mi, mo, RD, st ), "setup" );
    vf_check( f.setupOutput( out0, -5000.0f, 6000.0f ), "range" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, pa ) && f.setupInputMF( in1, 1, fis::constantmf, pb ), "sets" );
    vf_check( f.setupOutputMF( out0, 0, fis::constantmf, z0 ) && f.setupOutputMF( out0, 1, fis::constantmf, z1 ), "sets" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( f[ out0 ], clamp( ( mn( a, b )*z0[ 0 ] + mx( a, b )*z1[ 0 ] )/( mn( a, b ) + mx( a, b ) ), -5000.0f, 6000.0f ), "weighted average of the rules under minimum and maximum" );
}
ENTRY H_sugeno_defaults() { again_sugeno( fis::Sugeno, false ); }
ENTRY H_sugeno_again() { again_sugeno( fis::Sugeno, true ); }
ENTRY H_sugeno_after_mamdani() { again_sugeno( fis::Mamdani, true ); }
static void again_mamdani( const fis::type before, const bool used )
{
    const float a = anyunit( "a" ), b = anyunit( "b" ), u = anyunit( "u" ), v = anyunit( "v" );
    const float pa[ 1 ] = { a }, pb[ 1 ] = { b }, pu[ 1 ] = { u }, pv[ 1 ] = { v };
    fis::instance f;
    fis::input xi[ 2 ];
    fis::output xo[ 1 ];
    fis::mf mi[ 2 ], mo[ 2 ];
    float st[ 2 ];
    float *xs = vf_floats( 100U, "xs" ), *ys = vf_floats( 100U, "ys" );
    if ( used ) other( f, before, xi, xo, mi, mo, st );
    vf_check( f.setup( fis::Mamdani, xi, xo, mi, mo, RM, st ), "setup" );
    vf_check( f.setupOutput( out0, 0.0f, 100.0f ), "range" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, pa ) && f.setupInputMF( in1, 1, fis::constantmf, pb ), "sets" );
    vf_check( f.setupOutputMF( out0, 0, fis::constantmf, pu ) && f.setupOutputMF( out0, 1, fis::constantmf, pv ), "sets" );
    vf_check( xo[ 0 ].storeAggregatedRegion( xs, ys, 100U ), "region" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    for ( size_t k = 0U ; k < 100U ; k += 33U ) {
        vf_eq( xs[ k ], static_cast<float>( k ) + 0.5f, "abscissa of the stored region" );
        vf_eq( ys[ k ], mx( mn( a, u ), mn( b, 1.0f - v ) ), "minimum implication and maximum aggregation" );
    }
}
ENTRY H_region_defaults() { again_mamdani( fis::Mamdani, false ); }
ENTRY H_region_again() { again_mamdani( fis::Mamdani, true ); }
ENTRY H_region_after_sugeno() { again_mamdani( fis::Sugeno, true ); }
/* the centroid is the method after setup */
ENTRY H_defuzz_default()
{
    const float h = vf_real( "h" );
    vf_assume( h > 0.0f ); vf_assume( h <= 1.0f );
    float y[ 100 ];
    for ( size_t k = 0U ; k < 100U ; ++k ) y[ k ] = ( ( 10U == k ) || ( 20U == k ) || ( 90U == k ) ) ? h : 0.0f;
    mam1 f( R1 );
    (void)mamdani( f, fis::lom, y, 0.0f, 100.0f );
    g_at = 0U;
    vf_check( f.setup() && f.setupInputMF( in0, 0, full, nullptr ) && f.setupOutputMF( out0, 0, curve, nullptr ), "setup" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( f[ out0 ], 40.5f, "the centroid of three equal points" );
}

/* ------------------------------------------------------------------ configuration and robustness */
struct plant {
    fis::instance f;
    fis::input xi[ 2 ];
    fis::output xo[ 3 ];
    fis::mf mi[ 3 ], mo[ 4 ];
    float st[ 2 ];
};
static const fis::rules R2[] = { FIS_RULES_BEGIN
    IF in0 IS 0 AND in1 IS 1 THEN out0 IS 0 AND out1 IS 1 AND 2 IS 2 END
    IF in1 IS 2 THEN out1 IS 3 END
FIS_RULES_END };
static fis::tag anytag() { return static_cast<fis::tag>( static_cast<int>( vf_u8( "tag" ) ) - 100 ); }
ENTRY H_cfg_tags_io()
{
    plant *p = new ( vf_buf( sizeof( plant ), "plant" ) ) plant;
    vf_check( p->f.setup( fis::Sugeno, p->xi, p->xo, p->mi, p->mo, R2, p->st ), "setup" );
    const fis::tag t = anytag();
    const float a = vf_real( "a" ), b = vf_real( "b" );
    vf_check( p->f.setupInput( t, a, b ) == ( ( t >= 0 ) && ( t < 2 ) ), "setupInput accepts exactly the existing inputs" );
    vf_check( p->f.setInput( t, a ) == ( ( t >= 0 ) && ( t < 2 ) ), "setInput accepts exactly the existing inputs" );
    vf_check( p->f.setupOutput( t, a, b ) == ( ( t >= 0 ) && ( t < 3 ) ), "setupOutput accepts exactly the existing outputs" );
    float v = 123.0f;
    const bool r = p->f.getOutput( t, v );
    vf_check( r == ( ( t >= 0 ) && ( t < 3 ) ), "getOutput accepts exactly the existing outputs" );
    vf_check( r || ( v == 123.0f ), "a rejected read leaves the variable" );
    const float y = p->f[ t ];
    vf_check( r ? ( y == v ) : true, "indexed access reads the same output" );
}
ENTRY H_cfg_tags_mf()
{
    plant *p = new ( vf_buf( sizeof( plant ), "plant" ) ) plant;
    static const float q[ 1 ] = { 0.0f };
    vf_check( p->f.setup( fis::Sugeno, p->xi, p->xo, p->mi, p->mo, R2, p->st ), "setup" );
    const fis::tag t = anytag(), m = anytag();
    const bool ti = ( t >= 0 ) && ( t < 2 ) && ( m >= 0 ) && ( m < 3 ), to = ( t >= 0 ) && ( t < 3 ) && ( m >= 0 ) && ( m < 4 );
    vf_check( p->f.setupInputMF( t, m, fis::constantmf, q ) == ti, "setupInputMF accepts exactly the existing inputs and sets" );
    vf_check( p->f.setupInputMF( t, m, full, q ) == ti, "setupInputMF accepts exactly the existing inputs and sets" );
    vf_check( p->f.setupOutputMF( t, m, fis::constantmf, q ) == to, "setupOutputMF accepts exactly the existing outputs and sets" );
    vf_check( p->f.setupOutputMF( t, m, full, q ) == to, "setupOutputMF accepts exactly the existing outputs and sets" );
    vf_check( !p->f.setupInputMF( 0, 0, fis::FIS_NUM_MFS, q ) && !p->f.setupOutputMF( 0, 0, static_cast<fis::shapeMF>( 100 ), q ), "unknown shapes are rejected" );
}
template <typename T>
static T *many( const size_t n, const char *what )
{
    T *p = reinterpret_cast<T*>( vf_buf( n*sizeof( T ), what ) );
    for ( size_t i = 0U ; i < n ; ++i ) (void)new ( &p[ i ] ) T;
    return p;
}
/* every combination of counts: tags are checked against the count they belong to */
ENTRY H_cfg_counts()
{
    static const float q[ 1 ] = { 0.0f };
    for ( size_t k = 0U ; k < 16U ; ++k ) {
        const size_t ni = ( k & 1U ) ? 2U : 1U, no = ( k & 2U ) ? 2U : 1U, nmi = ( k & 4U ) ? 3U : 1U, nmo = ( k & 8U ) ? 3U : 1U;
        fis::input *xi = many<fis::input>( ni, "inputs" );
        fis::output *xo = many<fis::output>( no, "outputs" );
        fis::mf *mi = many<fis::mf>( nmi, "input sets" );
        fis::mf *mo = many<fis::mf>( nmo, "output sets" );
        float st[ 1 ], v = 0.0f;
        fis::instance f;
        vf_check( f.setup( fis::Sugeno, xi, ni, xo, no, mi, nmi, mo, nmo, R1, 1U, st ), "setup" );
        for ( int t = -1 ; t < 5 ; ++t ) {
            const bool in = ( t >= 0 ) && ( static_cast<size_t>( t ) < ni ), out = ( t >= 0 ) && ( static_cast<size_t>( t ) < no );
            const fis::tag tt = static_cast<fis::tag>( t );
            vf_check( f.setupInput( tt, 0.0f, 1.0f ) == in, "setupInput accepts exactly the existing inputs" );
            vf_check( f.setInput( tt, 0.0f ) == in, "setInput accepts exactly the existing inputs" );
            vf_check( f.setupOutput( tt, 0.0f, 1.0f ) == out, "setupOutput accepts exactly the existing outputs" );
            vf_check( f.getOutput( tt, v ) == out, "getOutput accepts exactly the existing outputs" );
            for ( int m = -1 ; m < 5 ; ++m ) {
                const fis::tag mm = static_cast<fis::tag>( m );
                vf_check( f.setupInputMF( tt, mm, fis::constantmf, q ) == ( in && ( m >= 0 ) && ( static_cast<size_t>( m ) < nmi ) ), "setupInputMF accepts exactly the existing inputs and sets" );
                vf_check( f.setupOutputMF( tt, mm, fis::constantmf, q ) == ( out && ( m >= 0 ) && ( static_cast<size_t>( m ) < nmo ) ), "setupOutputMF accepts exactly the existing outputs and sets" );
            }
        }
    }
}
/* a rejected change leaves the previous configuration in force */
ENTRY H_cfg_rejected()
{
    const float a = vf_real( "a" ), b = vf_real( "b" ), z = vf_real( "z" );
    vf_assume( a > 0.0f ); vf_assume( a < 1.0f ); vf_assume( b > 0.0f ); vf_assume( b < 1.0f ); vf_assume( z > -9.0f ); vf_assume( z < 9.0f );
    static const fis::rules r[] = { FIS_RULES_BEGIN IF in0 IS sA AND in1 IS sB THEN out0 IS 0 END FIS_RULES_END };
    const float pa[ 1 ] = { a }, pb[ 1 ] = { b }, pz[ 1 ] = { z }, other[ 1 ] = { 0.5f };
    fis::instance f;
    fis::input xi[ 2 ];
    fis::output xo[ 1 ];
    fis::mf mi[ 2 ], mo[ 1 ];
    float st[ 1 ];
    vf_check( f.setup( fis::Sugeno, xi, 2U, xo, 1U, mi, 2U, mo, 1U, r, 1U, st ), "setup" );
    vf_check( f.setParameter( fis::FIS_AND, fis::FIS_PROD ) && f.setDeFuzzMethod( fis::wtsum ) && f.setupOutput( out0, -10.0f, 10.0f ), "parameters" );
    vf_check( f.setupInputMF( in0, sA, fis::constantmf, pa ) && f.setupInputMF( in1, sB, fis::constantmf, pb ) && f.setupOutputMF( out0, 0, fis::constantmf, pz ), "sets" );
    vf_check( !f.setParameter( fis::FIS_AND, fis::FIS_MAX ) && !f.setParameter( fis::FIS_OR, fis::FIS_MIN ), "unusable operators" );
    vf_check( !f.setDeFuzzMethod( fis::centroid ) && !f.setDeFuzzMethod( fis::som ), "unusable methods" );
    vf_check( !f.setupInputMF( in0, sA, fis::FIS_NUM_MFS, other ) && !f.setupInputMF( 2, sA, fis::constantmf, other ) && !f.setupOutputMF( out0, 0, fis::FIS_NUM_MFS, other ), "unusable sets" );
    vf_check( !f.setup( fis::Mamdani, xi, 2U, xo, 1U, mi, 2U, mo, 1U, r, 0U, st ) && !f.setup( fis::Mamdani, xi, 2U, xo, 1U, mi, 2U, mo, 1U, r, 1U, nullptr ) && !f.setup( fis::Tsukamoto, nullptr, 1U, xo, 1U, mi, 2U, mo, 1U, r, 1U, st ), "unusable storage" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( st[ 0 ], a*b, "the operator is still the product" );
    vf_eq( f[ out0 ], clamp( a*b*z, -10.0f, 10.0f ), "the output is still the weighted sum of the accepted sets" );
}
ENTRY H_cfg_before_setup()
{
    fis::instance f;
    float v = 1.0f;
    static const float q[ 1 ] = { 0.0f };
    vf_check( !f.setupInput( 0, 0.0f, 1.0f ) && !f.setupOutput( 0, 0.0f, 1.0f ) && !f.setInput( 0, 0.0f ) && !f.getOutput( 0, v ), "nothing exists before setup" );
    vf_check( !f.setupInputMF( 0, 0, fis::constantmf, q ) && !f.setupOutputMF( 0, 0, fis::constantmf, q ), "nothing exists before setup" );
    vf_check( !f.fuzzify() && !f.inference() && !f.deFuzzify(), "no evaluation before setup" );
    f << static_cast<fis::tag>( 0 ) << 1.0f;
}
/* streaming: values go to the input selected last, and only to an existing one */
static const fis::rules RT[] = { FIS_RULES_BEGIN
    IF in0 IS 0 THEN out0 IS 0 AND out1 IS 1 END
FIS_RULES_END };
static float small( const char *n ) { const float v = vf_real( n ); vf_assume( v > -900.0f ); vf_assume( v < 900.0f ); return v; }
template <typename F>
static void stream( F& f )
{
    static const float one[ 1 ] = { 1.0f }, k0[ 3 ] = { 1.0f, 0.0f, 0.0f }, k1[ 3 ] = { 0.0f, 1.0f, 0.0f };
    vf_check( f.setupInput( in0, -1000.0f, 1000.0f ) && f.setupInput( in1, -1000.0f, 1000.0f ), "ranges" );
    vf_check( f.setupOutput( out0, -1000.0f, 1000.0f ) && f.setupOutput( out1, -1000.0f, 1000.0f ), "ranges" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, one ) && f.setupOutputMF( out0, 0, fis::linearmf, k0 ) && f.setupOutputMF( out1, 1, fis::linearmf, k1 ), "sets" );
    const float a = small( "a" ), b = small( "b" ), c = small( "c" );
    const int n = -12;
    vf_check( f.setInput( in0, 7.0f ) && f.setInput( in1, 8.0f ), "inputs" );
    f << c << 3;
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( f[ out0 ], 7.0f, "a value is ignored while no input is selected" );
    vf_eq( f[ out1 ], 8.0f, "a value is ignored while no input is selected" );
    f << in1 << a << n;
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( f[ out0 ], 7.0f, "only the selected input is set" );
    vf_eq( f[ out1 ], static_cast<float>( n ), "an integral value is set" );
    f << in0 << a << in1 << b;
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( f[ out0 ], a, "the selected input is set" );
    vf_eq( f[ out1 ], b, "the selected input is set" );
    for ( int t = -3 ; t <= 40 ; t += ( t > 3 ) ? 12 : 1 ) {
        f << static_cast<fis::tag>( t ) << c;            /* an unknown tag: nothing but an existing input may change */
        if ( ( t != 0 ) && ( t != 1 ) ) vf_eq( f[ static_cast<fis::tag>( t ) ], b, "an unknown tag reads the last output" );
    }
}
ENTRY H_cfg_stream()
{
    fis::instance f;
    fis::input *xi = new ( vf_buf( 2U*sizeof( fis::input ), "inputs" ) ) fis::input[ 2 ];
    fis::output *xo = new ( vf_buf( 2U*sizeof( fis::output ), "outputs" ) ) fis::output[ 2 ];
    fis::mf mi[ 2 ], mo[ 2 ];
    float st[ 1 ];
    vf_check( f.setup( fis::Sugeno, xi, 2U, xo, 2U, mi, 2U, mo, 2U, RT, 1U, st ), "setup" );
    stream( f );
}
ENTRY H_cfg_stream_system()
{
    fis::system<fis::Sugeno,2,2,2,2,1> f( RT );
    vf_check( f.setup(), "setup" );
    stream( f );
}
ENTRY H_cfg_stream_again()
{
    fis::instance f;
    fis::input *xi = new ( vf_buf( 2U*sizeof( fis::input ), "inputs" ) ) fis::input[ 2 ];
    fis::input *yi = new ( vf_buf( sizeof( fis::input ), "input" ) ) fis::input[ 1 ];
    fis::output xo[ 2 ];
    fis::mf mi[ 2 ], mo[ 2 ];
    float st[ 2 ];
    vf_check( f.setup( fis::Sugeno, xi, 2U, xo, 2U, mi, 2U, mo, 2U, RD, 2U, st ), "setup" );
    f << in1 << 1.0f;
    vf_check( f.setup( fis::Sugeno, yi, 1U, xo, 2U, mi, 2U, mo, 2U, RD, 2U, st ), "setup" );
    f << vf_real( "a" );
    f << 3;
}
ENTRY H_cfg_setup()
{
    plant p;
    typedef fis::instance I;
    const unsigned k = vf_u8( "k" ) & 15U;
    I f;
    const bool ok = f.setup( static_cast<fis::type>( ( 11U == k ) ? 3 : 1 ), ( 0U == k ) ? nullptr : p.xi, ( 1U == k ) ? 0U : 2U, ( 2U == k ) ? nullptr : p.xo, ( 3U == k ) ? 0U : 3U,
                             ( 4U == k ) ? nullptr : p.mi, ( 5U == k ) ? 0U : 3U, ( 6U == k ) ? nullptr : p.mo, ( 7U == k ) ? 0U : 4U,
                             ( 8U == k ) ? nullptr : R2, ( 9U == k ) ? 0U : 2U, ( 10U == k ) ? nullptr : p.st );
    vf_check( ok == ( k > 11U ), "setup succeeds exactly with all the storage" );
    vf_check( f.setInput( 0, 1.0f ) == ok, "a rejected setup leaves the object unconfigured" );
}
ENTRY H_cfg_params()
{
    plant p;
    vf_check( p.f.setup( fis::Mamdani, p.xi, p.xo, p.mi, p.mo, R2, p.st ), "setup" );
    const unsigned x = vf_u8( "x" ) & 7U;
    const fis::paramValue v = static_cast<fis::paramValue>( x );
    vf_check( p.f.setParameter( fis::FIS_AND, v ) == ( x <= 1U ), "AND: minimum or product" );
    vf_check( p.f.setParameter( fis::FIS_OR, v ) == ( ( x >= 2U ) && ( x <= 3U ) ), "OR: maximum or probabilistic" );
    vf_check( p.f.setParameter( fis::FIS_Implication, v ) == ( x <= 1U ), "implication: minimum or product" );
    vf_check( p.f.setParameter( fis::FIS_Aggregation, v ) == ( ( x >= 2U ) && ( x <= 4U ) ), "aggregation: maximum, probabilistic or sum" );
}
ENTRY H_cfg_methods()
{
    for ( int t = 0 ; t < 3 ; ++t ) {
        plant p;
        vf_check( p.f.setup( static_cast<fis::type>( t ), p.xi, p.xo, p.mi, p.mo, R2, p.st ), "setup" );
        const unsigned m = vf_u8( "m" ) & 15U;
        const bool want = ( 0 == t ) ? ( m <= 4U ) : ( ( 1 == t ) ? ( ( 5U == m ) || ( 6U == m ) ) : ( 5U == m ) );
        vf_check( p.f.setDeFuzzMethod( static_cast<fis::deFuzzMethod>( m ) ) == want, "each kind of system accepts exactly its methods" );
    }
}
/* any list of rules that ends with FIS_RULES_END: nothing outside the arrays is touched, and exactly the well-formed lists are accepted */
static bool set_ok( int v, int n ) { const int k = ( v < 0 ) ? -v : v; return ( k >= 1 ) && ( k <= n ); }
template <size_t L>
static void anyrules( const size_t nrules )
{
    fis::rules *r = static_cast<fis::rules*>( vf_buf( L + 2U, "rules" ) );
    static const float q[ 1 ] = { 0.5f };
    r[ 0 ] = fis::Q_FIS_RULES_BEGIN;
    for ( size_t i = 1U ; i <= L ; ++i ) r[ i ] = anytag();
    r[ L + 1U ] = fis::Q_FIS_RULES_END;
    fis::input *xi = new ( vf_buf( 2U*sizeof( fis::input ), "xi" ) ) fis::input[ 2 ];
    fis::output *xo = new ( vf_buf( sizeof( fis::output ), "xo" ) ) fis::output[ 1 ];
    fis::mf *mi = new ( vf_buf( 3U*sizeof( fis::mf ), "mi" ) ) fis::mf[ 3 ];
    fis::mf *mo = new ( vf_buf( 2U*sizeof( fis::mf ), "mo" ) ) fis::mf[ 2 ];
    float *st = vf_floats( nrules, "st" );
    fis::instance f;
    vf_check( f.setup( fis::Sugeno, xi, 2U, xo, 1U, mi, 3U, mo, 2U, r, nrules, st ), "setup" );
    for ( fis::tag k = 0 ; k < 3 ; ++k ) vf_check( f.setupInputMF( 0, k, fis::constantmf, q ), "set" );
    vf_check( f.fuzzify(), "fuzzify" );
    const bool got = f.inference();
    bool ok = ( 5U == L ) && ( 1U == nrules );
    if ( ok ) {
        ok = ( r[ 1 ] >= 0 ) && ( r[ 1 ] < 2 ) && set_ok( r[ 2 ], 3 ) && ( fis::Q_FIS_THEN == r[ 3 ] ) && ( 0 == r[ 4 ] ) && set_ok( r[ 5 ], 2 );
    }
    vf_check( got == ok, "exactly the well-formed rule lists are accepted" );
}
ENTRY H_rules_1() { anyrules<1>( 1U ); }
ENTRY H_rules_2() { anyrules<2>( 1U ); }
ENTRY H_rules_3() { anyrules<3>( 1U ); }
ENTRY H_rules_4() { anyrules<4>( 1U ); }
ENTRY H_rules_5() { anyrules<5>( 1U ); }
ENTRY H_rules_5_short() { anyrules<5>( 2U ); }

/* as many rules as announced: neither fewer nor more */
ENTRY H_rules_count()
{
    static const fis::rules r[] = { FIS_RULES_BEGIN
        IF in0 IS 0 AND in1 IS 1 THEN out0 IS 0 END
        IF in0 IS_NOT 0 THEN out0 IS 1 END
        IF in1 IS 2 OR in0 IS 0 OR in1 IS_NOT 1 THEN out0 IS_NOT 1 END
    FIS_RULES_END };
    static const float q[ 1 ] = { 0.5f };
    for ( size_t n = 1U ; n <= 6U ; ++n ) {
        for ( unsigned outs = 1U ; outs <= 2U ; ++outs ) {
            fis::instance f;
            fis::input xi[ 2 ];
            fis::output xo[ 2 ];
            fis::mf mi[ 3 ], mo[ 2 ];
            float *st = vf_floats( n, "st" );
            vf_check( f.setup( fis::Sugeno, xi, 2U, xo, outs, mi, 3U, mo, 2U, r, n, st ), "setup" );
            for ( fis::tag k = 0 ; k < 3 ; ++k ) vf_check( f.setupInputMF( 0, k, fis::constantmf, q ), "set" );
            vf_check( f.fuzzify(), "fuzzify" );
            vf_check( f.inference() == ( 3U == n ), "a rule list is accepted exactly when it holds the announced number of rules" );
        }
    }
}
/* ------------------------------------------------------------------ strengths and sets at the ends of their range */
ENTRY H_region_ends()
{
    static const float ends[ 3 ] = { 0.0f, 1.0f, 0.5f };
    static const fis::paramValue im[] = { fis::FIS_MIN, fis::FIS_PROD };
    static const fis::paramValue ag[] = { fis::FIS_MAX, fis::FIS_SUM, fis::FIS_PROBOR };
    for ( size_t k = 0U ; k < 6U*27U ; k += 5U ) {
        const size_t j = k/6U;
        const fis::paramValue imp = im[ k%2U ], agg = ag[ ( k/2U )%3U ];
        const float a = ends[ j%3U ], b = ends[ ( j/3U )%3U ], u = ends[ ( j/9U )%3U ], v = 0.25f;
        const float pa[ 1 ] = { a }, pb[ 1 ] = { b }, pu[ 1 ] = { u }, pv[ 1 ] = { v };
        fis::instance f;
        fis::input xi[ 2 ];
        fis::output xo[ 1 ];
        fis::mf mi[ 2 ], mo[ 2 ];
        float st[ 2 ];
        float *xs = vf_floats( 100U, "xs" ), *ys = vf_floats( 100U, "ys" );
        vf_check( f.setup( fis::Mamdani, xi, xo, mi, mo, RM, st ), "setup" );
        vf_check( f.setParameter( fis::FIS_Implication, imp ) && f.setParameter( fis::FIS_Aggregation, agg ) && f.setupOutput( out0, -100.0f, 100.0f ), "parameters" );
        vf_check( f.setupInputMF( in0, 0, fis::constantmf, pa ) && f.setupInputMF( in1, 1, fis::constantmf, pb ), "sets" );
        vf_check( f.setupOutputMF( out0, 0, fis::constantmf, pu ) && f.setupOutputMF( out0, 1, fis::constantmf, pv ), "sets" );
        vf_check( xo[ 0 ].storeAggregatedRegion( xs, ys, 100U ), "region" );
        vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
        const float r1 = ( fis::FIS_MIN == imp ) ? mn( a, u ) : a*u, r2 = ( fis::FIS_MIN == imp ) ? mn( b, 1.0f - v ) : b*( 1.0f - v );
        const float want = ( fis::FIS_MAX == agg ) ? mx( r1, r2 ) : ( ( fis::FIS_SUM == agg ) ? unit( r1 + r2 ) : unit( r1 + r2 - r1*r2 ) );
        vf_eq( ys[ 0 ], want, "implication and aggregation at the ends" );
        vf_eq( ys[ 99 ], want, "implication and aggregation at the ends" );
        vf_eq( xs[ 99 ], 99.0f, "last abscissa" );
    }
}
/* several Mamdani outputs with their own ranges and rules, evaluated repeatedly */
static const fis::rules RM2[] = { FIS_RULES_BEGIN
    IF in0 IS sA THEN out0 IS 0 AND out1 IS 1 END
    IF in1 IS sB THEN out1 IS 2 END
FIS_RULES_END };
static void outputs( const bool weighted )
{
    static const float q0[ 3 ] = { 0.0f, 25.0f, 50.0f }, q1[ 3 ] = { -40.0f, -30.0f, -20.0f }, q2[ 3 ] = { 0.0f, 20.0f, 40.0f };
    float wt[ 2 ] = { 1.0f, 0.5f };
    const float a = vf_real( "a" ), b = vf_real( "b" );
    vf_assume( a > 0.25f ); vf_assume( a < 0.75f ); vf_assume( b > 0.25f ); vf_assume( b < 0.75f );
    float pa[ 1 ] = { a }, pb[ 1 ] = { b };
    fis::instance f;
    fis::input xi[ 2 ];
    fis::output xo[ 2 ];
    fis::mf mi[ 2 ], mo[ 3 ];
    float st[ 2 ];
    float *x0 = vf_floats( 100U, "x0" ), *y0 = vf_floats( 100U, "y0" ), *x1 = vf_floats( 100U, "x1" ), *y1 = vf_floats( 100U, "y1" );
    vf_check( f.setup( fis::Mamdani, xi, xo, mi, mo, RM2, st ), "setup" );
    if ( weighted ) vf_check( f.setRuleWeights( wt ), "weights" );
    vf_check( f.setParameter( fis::FIS_Implication, fis::FIS_PROD ) && f.setupOutput( out0, 0.0f, 100.0f ) && f.setupOutput( out1, -50.0f, 50.0f ), "ranges" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, pa ) && f.setupInputMF( in1, 1, fis::constantmf, pb ), "sets" );
    vf_check( f.setupOutputMF( out0, 0, fis::trimf, q0 ) && f.setupOutputMF( out1, 1, fis::trimf, q1 ) && f.setupOutputMF( out1, 2, fis::trimf, q2 ), "sets" );
    vf_check( xo[ 0 ].storeAggregatedRegion( x0, y0, 100U ) && xo[ 1 ].storeAggregatedRegion( x1, y1, 100U ), "regions" );
    for ( int pass = 0 ; pass < 3 ; ++pass ) {
        const float wa = ( 2 == pass ) ? 0.0f : a, wb = ( weighted ? 0.5f : 1.0f )*( ( 1 == pass ) ? 0.0f : b );
        pa[ 0 ] = ( 2 == pass ) ? 0.0f : a;
        pb[ 0 ] = ( 1 == pass ) ? 0.0f : b;
        vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
        for ( size_t k = 0U ; k < 100U ; k += 7U ) {
            const float xa = static_cast<float>( k ) + 0.5f, xb = xa - 50.0f;
            vf_eq( x0[ k ], xa, "abscissae of the first output" );
            vf_eq( x1[ k ], xb, "abscissae of the second output" );
            vf_eq( y0[ k ], wa*tri( xa, 0.0f, 25.0f, 50.0f ), "first output: exactly its own rules" );
            vf_eq( y1[ k ], mx( wa*tri( xb, -40.0f, -30.0f, -20.0f ), wb*tri( xb, 0.0f, 20.0f, 40.0f ) ), "second output: exactly its own rules" );
        }
        if ( pass != 2 ) vf_eq( f[ out0 ], 25.0f, "centroid of a symmetric set" );
        if ( 1 == pass ) vf_eq( f[ out1 ], -30.0f, "centroid of a symmetric set" );
        if ( 2 == pass ) vf_eq( f[ out1 ], 20.0f, "centroid of a symmetric set" );
    }
}
ENTRY H_region_outputs() { outputs( false ); }
ENTRY H_region_outputs_weighted() { outputs( true ); }

/* Tsukamoto: several rules and outputs */
ENTRY H_tsuka_multi()
{
    for ( int method = 0 ; method < 2 ; ++method ) {
        const float a = vf_real( "a" ), b = vf_real( "b" );
        vf_assume( a > 0.0f ); vf_assume( a < 0.5f ); vf_assume( b > 0.0f ); vf_assume( b < 0.5f );
        const float pa[ 1 ] = { a }, pb[ 1 ] = { b };
        static const float z0[ 2 ] = { 10.0f, 20.0f }, z1[ 2 ] = { -4.0f, 4.0f }, z2[ 2 ] = { 1.0f, 3.0f }, z3[ 2 ] = { 0.0f, 8.0f };
        fis::system<fis::Tsukamoto,2,2,2,4,3> f( RS );
        vf_check( f.setup(), "setup" );
        vf_check( f.setParameter( fis::FIS_AND, fis::FIS_PROD ), "parameters" );
        const bool sum = ( 1 == method ) && f.setDeFuzzMethod( fis::wtsum );
        vf_check( f.setupOutput( out0, -5000.0f, 6000.0f ) && f.setupOutput( out1, -7000.0f, 8000.0f ), "range" );
        vf_check( f.setupInputMF( in0, 0, fis::constantmf, pa ) && f.setupInputMF( in1, 1, fis::constantmf, pb ), "sets" );
        vf_check( f.setupOutputMF( out0, 0, fis::tlinsmf, z0 ) && f.setupOutputMF( out0, 1, fis::tlinzmf, z1 ), "sets" );
        vf_check( f.setupOutputMF( out1, 2, fis::trampmf, z2 ) && f.setupOutputMF( out1, 3, fis::tlinsmf, z3 ), "sets" );
        const float w0 = a, w1 = b*( 1.0f - a ), w2 = 1.0f - b;
        for ( int pass = 0 ; pass < 2 ; ++pass ) {
            vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
            const float s0 = w0*( 10.0f + 10.0f*w0 ) + w2*( 4.0f - 8.0f*w2 ), s1 = w0*( 1.0f + 2.0f*w0 ) + w1*( 8.0f*w1 );
            vf_eq( f[ out0 ], clamp( sum ? s0 : s0/( w0 + w2 ), -5000.0f, 6000.0f ), "first output combines the inverted sets of its own rules" );
            vf_eq( f[ out1 ], clamp( sum ? s1 : s1/( w0 + w1 ), -7000.0f, 8000.0f ), "second output combines the inverted sets of its own rules" );
        }
    }
}
/* many rules, sets and inputs: counts beyond 256 */
static const size_t MANY = 300U;
ENTRY H_rule_large()
{
    fis::rules *r = reinterpret_cast<fis::rules*>( vf_buf( ( 2U + 5U*MANY )*sizeof( fis::rules ), "rules" ) );
    size_t k = 0U;
    static const fis::rules one[] = { FIS_RULES_BEGIN IF in0 IS 0 THEN out0 IS 0 END FIS_RULES_END };
    const size_t len = sizeof( one )/sizeof( one[ 0 ] );
    /* begin, premise of input and set, THEN, consequent of output and set, END, ... , end of rules */
    r[ k++ ] = one[ 0 ];
    for ( size_t i = 0U ; i < MANY ; ++i ) {
        for ( size_t j = 1U ; j + 1U < len ; ++j ) r[ k++ ] = one[ j ];
    }
    r[ k++ ] = one[ len - 1U ];
    fis::input xi[ 1 ];
    fis::output xo[ 1 ];
    fis::mf mi[ 1 ], mo[ 1 ];
    float *st = vf_floats( MANY, "strengths" );
    static const float half[ 1 ] = { 0.5f }, two[ 1 ] = { 2.0f };
    float *wt = vf_floats( MANY, "weights" );
    for ( size_t i = 0U ; i < MANY ; ++i ) { st[ i ] = 77.0f; wt[ i ] = static_cast<float>( i )/512.0f; }
    fis::instance f;
    vf_check( f.setup( fis::Sugeno, xi, 1U, xo, 1U, mi, 1U, mo, 1U, r, MANY, st ), "setup" );
    vf_check( f.setDeFuzzMethod( fis::wtsum ) && f.setupOutput( out0, -5000.0f, 5000.0f ), "parameters" );
    vf_check( f.setupInputMF( in0, 0, fis::constantmf, half ) && f.setupOutputMF( out0, 0, fis::constantmf, two ), "sets" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    for ( size_t i = 0U ; i < MANY ; ++i ) vf_eq( st[ i ], 0.5f, "strength of every one of many rules" );
    vf_eq( f[ out0 ], 300.0f, "every one of many rules contributes" );
    vf_check( f.setRuleWeights( wt ), "weights" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    for ( size_t i = 0U ; i < MANY ; ++i ) vf_eq( st[ i ], 0.5f*static_cast<float>( i )/512.0f, "every one of many rules has its own weight" );
}
ENTRY H_rule_many_sets()
{
    static const fis::rules r[] = { FIS_RULES_BEGIN
        IF 118 IS 115 AND 86 IS 83 THEN 117 IS 113 END
        IF 3 IS_NOT 5 OR 118 IS 83 THEN 34 IS 4 AND 119 IS_NOT 119 END
    FIS_RULES_END };
    fis::input *xi = many<fis::input>( 120U, "inputs" );
    fis::output *xo = many<fis::output>( 120U, "outputs" );
    fis::mf *mi = many<fis::mf>( 120U, "input sets" );
    fis::mf *mo = many<fis::mf>( 120U, "output sets" );
    float st[ 2 ], v = 0.0f;
    static const float a[ 1 ] = { 0.25f }, b[ 1 ] = { 0.75f }, c[ 1 ] = { 0.125f }, z[ 1 ] = { 3.0f }, y[ 1 ] = { 5.0f };
    fis::instance f;
    vf_check( f.setup( fis::Sugeno, xi, 120U, xo, 120U, mi, 120U, mo, 120U, r, 2U, st ), "setup" );
    vf_check( f.setDeFuzzMethod( fis::wtaver ), "method" );
    for ( int i = 0 ; i < 120 ; ++i ) vf_check( f.setupOutput( static_cast<fis::tag>( i ), -9.0f, 9.0f ), "range" );
    vf_check( f.setupInputMF( 118, 115, fis::constantmf, a ) && f.setupInputMF( 86, 83, fis::constantmf, b ) && f.setupInputMF( 3, 5, fis::constantmf, c ), "sets" );
    vf_check( f.setupOutputMF( 117, 113, fis::constantmf, z ) && f.setupOutputMF( 34, 4, fis::constantmf, y ), "sets" );
    vf_check( f.fuzzify() && f.inference() && f.deFuzzify(), "evaluation" );
    vf_eq( st[ 0 ], 0.25f, "sets of high tags" );
    vf_eq( st[ 1 ], 0.875f, "sets of high tags" );
    vf_check( f.getOutput( 117, v ), "output" );
    vf_eq( v, 3.0f, "outputs of high tags" );
    vf_check( f.getOutput( 34, v ), "output" );
    vf_eq( v, 5.0f, "an output whose tag is lower" );
    vf_check( !f.getOutput( 120, v ) && !f.setInput( 120, v ) && !f.setupInputMF( 0, 120, fis::constantmf, a ), "beyond the last" );
}
