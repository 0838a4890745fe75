//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
// IIR filters: all bounded histories of coefficient updates and periods against the difference equation; conversions of
// coefficient sets between parametric, binary and textual form.
#include "runner.hpp"
#include <boost/property_tree/ptree.hpp>
#include <cmath>
#include <libefl/filter_functions.hpp>
#include <libpml/biquad_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <librbbl/biquad_coefficient.hpp>
#include <librbbl/parametric_iir_coefficient.hpp>
#include <librbbl/parametric_iir_coefficient_calculator.hpp>
#include <librcl/biquad_iir_filter.hpp>
#include <numeric>
using ptree = boost::property_tree::ptree;
template<typename T> using BQ = rbbl::BiquadCoefficient<T>;
template<typename T> using BL = rbbl::BiquadCoefficientList<T>;
template<typename T> using BM = rbbl::BiquadCoefficientMatrix<T>;
template<typename T> using PI = rbbl::ParametricIirCoefficient<T>;
template<typename T> using PL = rbbl::ParametricIirCoefficientList<T>;
using PType = rbbl::ParametricIirCoefficientBase::Type;

// One section: y[n] = b0 x[n] + b1' x[n-1] - a1' y[n-1] + b2'' x[n-2] - a2'' y[n-2], earlier samples weighted by the
// coefficients in force when they were processed.
struct Section
{
  double c[ 5 ] = { 1, 0, 0, 0, 0 }; double h1[ 7 ] = {}, h2[ 7 ] = {}; // previous samples: x, y, c0..c4
  double step( double x )
  {
    double const y = c[ 0 ] * x + ( h1[ 3 ] * h1[ 0 ] - h1[ 5 ] * h1[ 1 ] ) + ( h2[ 4 ] * h2[ 0 ] - h2[ 6 ] * h2[ 1 ] );
    std::copy( h1, h1 + 7, h2 ); h1[ 0 ] = x; h1[ 1 ] = y; std::copy( c, c + 5, h1 + 2 ); return y;
  }
};
static std::vector<std::vector<double>> const kPalette = { { 1, 0, 0, 0, 0 }, { 0.5, 0.25, -0.5, 0.5, 0.25 }, { -1, 0, 0.75, -0.25, 0.5 }, { 0.25, -1, 0, 0, -0.25 } };
template<typename T> static BQ<T> bq( int k ) { auto const & p = kPalette[ k ]; return BQ<T>( (T)p[ 0 ], (T)p[ 1 ], (T)p[ 2 ], (T)p[ 3 ], (T)p[ 4 ] ); }
static int kIndex( std::size_t ch, std::size_t sec, int variant ) { return (int)( ( ch + 2 * sec + (std::size_t)variant ) % kPalette.size() ); }

struct Filter
{
  std::size_t nCh, nSec; std::vector<std::vector<Section>> s;
  Filter( std::size_t c, std::size_t n ) : nCh( c ), nSec( n ), s( c, std::vector<Section>( n ) ) {}
  void set( std::size_t ch, std::size_t sec, int k ) { std::copy( kPalette[ k ].begin(), kPalette[ k ].end(), s[ ch ][ sec ].c ); }
};
static void history( Chooser & c, bool quick )
{
  std::size_t const nCh = (std::size_t)c.pick( std::vector<int>{ 1, 2, 3 }, "channels" ), nSec = (std::size_t)c.pick( std::vector<int>{ 0, 1, 2, 3 }, "sections" );
  if( quick && nCh == 3 && nSec == 3 ) return;
  std::size_t const N = (std::size_t)c.pick( quick ? std::vector<int>{ 1, 2, 16 } : std::vector<int>{ 1, 2, 3, 8, 16, 32 }, "period" );
  int const ctor = c.choose( 4, "constructor" ); bool const ctl = c.flag( "control input" );
  SignalFlowContext ctx( N, 48000 ); Filter f( nCh, nSec );
  std::unique_ptr<rcl::BiquadIirFilter> comp;
  switch( ctor )
  {
  case 0: comp.reset( new rcl::BiquadIirFilter( ctx, "iir", nullptr, nCh, nSec, ctl ) ); break;
  case 1: comp.reset( new rcl::BiquadIirFilter( ctx, "iir", nullptr, nCh, nSec, bq<float>( 1 ), ctl ) ); for( auto & r : f.s ) for( auto & s : r ) std::copy( kPalette[ 1 ].begin(), kPalette[ 1 ].end(), s.c ); break;
  case 2: { BL<float> l( nSec ); for( std::size_t s = 0; s < nSec; ++s ) { l[ s ] = bq<float>( kIndex( 0, s, 1 ) ); for( std::size_t ch = 0; ch < nCh; ++ch ) f.set( ch, s, kIndex( 0, s, 1 ) ); }
    comp.reset( new rcl::BiquadIirFilter( ctx, "iir", nullptr, nCh, nSec, l, ctl ) );
    BL<float> wrong( nSec + 1 ); if( !vx::throws( [&] { rcl::BiquadIirFilter x( ctx, "x", nullptr, nCh, nSec, wrong ); } ) ) c.fail( "constructor accepted a coefficient list of wrong length" ); break; }
  case 3: { BM<float> m( nCh, nSec ); for( std::size_t ch = 0; ch < nCh; ++ch ) for( std::size_t s = 0; s < nSec; ++s ) { m( ch, s ) = bq<float>( kIndex( ch, s, 2 ) ); f.set( ch, s, kIndex( ch, s, 2 ) ); }
    comp.reset( new rcl::BiquadIirFilter( ctx, "iir", nullptr, nCh, nSec, m, ctl ) );
    BM<float> wrong( nCh + 1, nSec ); if( !vx::throws( [&] { rcl::BiquadIirFilter x( ctx, "x", nullptr, nCh, nSec, wrong ); } ) ) c.fail( "constructor accepted a coefficient matrix of wrong size" ); break; }
  }
  Runner run( *comp, N, nCh, nCh ); pml::DoubleBufferingProtocol::OutputBase * port = nullptr;
  if( ctl ) control<pml::BiquadParameterMatrix<float>>( run.flow, "eqInput", port );
  if( run.flow.numberExternalParameterReceivePorts() != ( ctl ? 1u : 0u ) ) c.fail( "unexpected number of control inputs" );
  int const depth = quick ? 3 : 4;
  for( int d = 0; d < depth; ++d )
  {
    enum { none, one, chan, matrix, bad, ctlValid, ctlRows, ctlCols }; bool fails = false; int const variant = 1 + d;
    switch( c.choose( ctl ? 8 : 5, "update" ) )
    {
    case none: break;
    case one: { if( !nSec ) break; std::size_t const ch = nCh - 1, s = (std::size_t)d % nSec; comp->setCoefficients( ch, s, bq<float>( kIndex( ch, s, variant ) ) ); f.set( ch, s, kIndex( ch, s, variant ) ); break; }
    case chan: { BL<float> l( nSec ); std::size_t const ch = (std::size_t)d % nCh; for( std::size_t s = 0; s < nSec; ++s ) { l[ s ] = bq<float>( kIndex( 7, s, variant ) ); f.set( ch, s, kIndex( 7, s, variant ) ); } comp->setChannelCoefficients( ch, l ); break; }
    case matrix: { BM<float> m( nCh, nSec ); for( std::size_t ch = 0; ch < nCh; ++ch ) for( std::size_t s = 0; s < nSec; ++s ) { m( ch, s ) = bq<float>( kIndex( ch, s, variant ) ); f.set( ch, s, kIndex( ch, s, variant ) ); } comp->setCoefficientMatrix( m ); break; }
    case bad:
      if( !vx::throws( [&] { comp->setCoefficients( nCh, 0, bq<float>( 2 ) ); } ) || !vx::throws( [&] { comp->setCoefficients( 0, nSec, bq<float>( 2 ) ); } ) ||
          !vx::throws( [&] { comp->setChannelCoefficients( nCh, BL<float>( nSec ) ); } ) || !vx::throws( [&] { comp->setChannelCoefficients( 0, BL<float>( nSec + 1 ) ); } ) ||
          ( nSec > 0 && !vx::throws( [&] { comp->setChannelCoefficients( 0, BL<float>( nSec - 1 ) ); } ) ) || !vx::throws( [&] { comp->setCoefficientMatrix( BM<float>( nCh + 1, nSec ) ); } ) ||
          ( nCh > 1 && !vx::throws( [&] { comp->setCoefficientMatrix( BM<float>( nCh - 1, nSec ) ); } ) ) || !vx::throws( [&] { comp->setCoefficientMatrix( BM<float>( nCh, nSec + 1 ) ); } ) )
        c.fail( "coefficients for a nonexistent channel or section, or of wrong dimensions, were accepted" );
      break;
    case ctlValid: { auto & m = dynamic_cast<pml::BiquadParameterMatrix<float> &>( port->data() ); m.resize( nCh, nSec ); for( std::size_t ch = 0; ch < nCh; ++ch ) for( std::size_t s = 0; s < nSec; ++s ) { m( ch, s ) = bq<float>( kIndex( ch + 1, s, variant ) ); f.set( ch, s, kIndex( ch + 1, s, variant ) ); } port->swapBuffers(); break; }
    case ctlRows: { auto & m = dynamic_cast<pml::BiquadParameterMatrix<float> &>( port->data() ); m.resize( nCh + 1, nSec ); port->swapBuffers(); fails = true; break; }
    case ctlCols: { auto & m = dynamic_cast<pml::BiquadParameterMatrix<float> &>( port->data() ); m.resize( nCh, nSec + 1 ); port->swapBuffers(); fails = true; break; }
    }
    bool const ok = run.step();
    if( ok == fails ) c.fail( fails ? "an EQ message of wrong dimensions was not reported" : "processing failed" );
    if( !ok ) continue;
    for( std::size_t ch = 0; ch < nCh; ++ch ) for( std::size_t n = 0; n < N; ++n )
    {
      double y = run.in[ ch ][ n ], scale = 1.; for( auto & s : f.s[ ch ] ) { y = s.step( y ); scale = std::max( scale, std::abs( y ) ); }
      c.compared();
      if( std::abs( y - run.out[ ch ][ n ] ) > 1e-4 * scale ) c.fail( "period ", d, " channel ", ch, " sample ", n, ": output ", run.out[ ch ][ n ], ", the difference equation gives ", y );
    }
    uint64_t h = vx::mix( nCh * 64 + nSec, N * 8 + (unsigned)ctor ); for( auto & r : f.s ) for( auto & s : r ) for( double v : s.h1 ) h = vx::mix( h, (uint64_t)(int64_t)std::lround( v * 4096 ) );
    c.state( h );
  }
}
template<typename T> static void kernel( Chooser & c, bool quick )
{
  std::size_t const n = (std::size_t)c.choose( quick ? 10 : 34, "length" ), nSec = (std::size_t)c.choose( 4, "sections" ), sStride = 2 + (std::size_t)c.choose( 3, "state stride" ), cStride = 5 + (std::size_t)c.choose( 3, "coefficient stride" );
  bool const inplace = c.flag( "in place" ); std::size_t const off = (std::size_t)c.choose( 4, "offset" ), align = c.pick( std::vector<std::size_t>{ 0, 1, 2, 4 }, "alignment" );
  alignas( 64 ) T in[ 64 ], out[ 64 ]; T const guard = (T)-123.5; std::fill( in, in + 64, guard ); std::fill( out, out + 64, guard );
  for( std::size_t i = 0; i < n; ++i ) in[ off + i ] = (T)sample( 1, (long)i );
  std::vector<T> st( nSec * sStride, (T)0 ), co( nSec * cStride, guard ); for( auto & v : st ) v = guard;
  std::vector<Section> ref( nSec ); std::vector<std::vector<double>> v( nSec, std::vector<double>( 2 ) );
  for( std::size_t s = 0; s < nSec; ++s ) { int k = kIndex( 0, s, 1 ); for( int i = 0; i < 5; ++i ) co[ s * cStride + (std::size_t)i ] = (T)kPalette[ k ][ (std::size_t)i ]; v[ s ] = { 0.5 + s, -0.25 * s }; st[ s * sStride ] = (T)v[ s ][ 0 ]; st[ s * sStride + 1 ] = (T)v[ s ][ 1 ]; }
  T * dst = inplace ? in : out; std::vector<double> x( n ); for( std::size_t i = 0; i < n; ++i ) x[ i ] = in[ off + i ];
  auto const err = efl::iirFilterBiquadsSingleChannel<T>( in + off, dst + off, st.data(), co.data(), n, nSec, sStride, cStride, align );
  bool const aligned = align == 0 || off % align == 0;
  if( ( err == efl::noError ) != aligned ) c.fail( "error code ", (int)err, " for offset ", off, " and alignment ", align );
  if( aligned )
  {
    for( std::size_t s = 0; s < nSec; ++s ) { auto const & k = kPalette[ (std::size_t)kIndex( 0, s, 1 ) ]; double a = v[ s ][ 0 ], b = v[ s ][ 1 ]; for( auto & xi : x ) { double y = k[ 0 ] * xi + a; a = b + k[ 1 ] * xi - k[ 3 ] * y; b = k[ 2 ] * xi - k[ 4 ] * y; xi = y; } v[ s ] = { a, b }; }
    for( std::size_t i = 0; i < n; ++i ) { c.compared(); if( std::abs( x[ i ] - (double)dst[ off + i ] ) > 1e-4 * ( 1 + std::abs( x[ i ] ) ) ) c.fail( "sample ", i, ": ", dst[ off + i ], " instead of ", x[ i ] ); }
    for( std::size_t s = 0; s < nSec; ++s ) for( std::size_t j = 0; j < sStride; ++j ) if( j < 2 ? std::abs( (double)st[ s * sStride + j ] - v[ s ][ j ] ) > 1e-4 * ( 1 + std::abs( v[ s ][ j ] ) ) : st[ s * sStride + j ] != guard ) c.fail( "state ", j, " of section ", s, " is ", st[ s * sStride + j ] );
  }
  for( std::size_t i = 0; i < 64; ++i ) if( ( i < off || i >= off + n ) && ( in[ i ] != guard || out[ i ] != guard ) ) c.fail( "memory outside the range was changed" );
  c.state( n * 16 + nSec );
}
// ---- text
template<typename T> static bool same( BQ<T> const & a, BQ<T> const & b ) { return std::equal( a.data(), a.data() + 5, b.data() ); }
template<typename T> static bool same( BL<T> const & a, BL<T> const & b ) { return a.size() == b.size() && std::equal( a.begin(), a.end(), b.begin(), []( BQ<T> const & x, BQ<T> const & y ) { return same( x, y ); } ); }
template<typename T> static bool same( BM<T> const & a, BM<T> const & b ) { if( a.numberOfFilters() != b.numberOfFilters() || a.numberOfSections() != b.numberOfSections() ) return false; for( std::size_t i = 0; i < a.numberOfFilters(); ++i ) if( !same( a[ i ], b[ i ] ) ) return false; return true; }
template<typename T> static bool same( PI<T> const & a, PI<T> const & b ) { return a.type() == b.type() && a.frequency() == b.frequency() && a.quality() == b.quality() && a.gain() == b.gain(); }
template<typename T> static bool same( PL<T> const & a, PL<T> const & b ) { return a.size() == b.size() && std::equal( a.begin(), a.end(), b.begin(), []( PI<T> const & x, PI<T> const & y ) { return same( x, y ); } ); }
template<typename C> static void roundTrip( Chooser & c, C const & orig, C target, bool xml )
{
  // target: arbitrary previous contents
  int const form = c.choose( 3, "form" );
  if( form == 0 ) { ptree t; if( xml ) { orig.writeXml( t ); target.loadXml( t ); } else { orig.writeJson( t ); target.loadJson( t ); } }
  else if( form == 1 ) { std::stringstream s; if( xml ) { orig.writeXml( s ); target.loadXml( s ); } else { orig.writeJson( s ); target.loadJson( s ); } }
  else { std::string s; if( xml ) { orig.writeXml( s ); c.note( s ); target.loadXml( s ); } else { orig.writeJson( s ); c.note( s ); target.loadJson( s ); } }
  c.compared();
  if( !same( orig, target ) ) c.fail( "the coefficients read differ from those written" );
}
template<typename T> static BQ<T> oddBq( int i ) { T const v[ 7 ] = { (T)1, (T)( 1. / 3 ), (T)-1.7320508075688772, (T)1e-20, (T)0, (T)-123456.789, (T)2 }; return BQ<T>( v[ i % 7 ], v[ ( i + 1 ) % 7 ], v[ ( i + 3 ) % 7 ], v[ ( i + 2 ) % 7 ], v[ ( i + 5 ) % 7 ] ); }
template<typename T> static PI<T> oddPi( int i ) { T const g[ 4 ] = { (T)0, (T)( 1. / 3 ), (T)-12.3456789012345, (T)6 }, q[ 3 ] = { (T)0.70710678118654752, (T)10, (T)( 1. / 3 ) }; return PI<T>( (PType)( i % 8 ), (T)( 20 + i * 997.0 / 3 ), q[ i % 3 ], g[ ( i / 2 ) % 4 ] ); }
template<typename T> static void text( Chooser & c )
{
  int const kind = c.choose( 5, "container" ); bool const xml = kind != 4 && c.flag( "xml" );
  switch( kind )
  {
  case 0: roundTrip( c, oddBq<T>( c.choose( 7, "value" ) ), bq<T>( 3 ), xml ); break;
  case 1: { BL<T> l( (std::size_t)c.choose( 4, "size" ) ); int const b = c.choose( 7, "value" ); for( std::size_t i = 0; i < l.size(); ++i ) l[ i ] = oddBq<T>( b + (int)i ); roundTrip( c, l, BL<T>( (std::size_t)c.choose( 4, "old size" ) ), xml ); break; }
  case 2: roundTrip( c, oddPi<T>( c.choose( 24, "value" ) ), oddPi<T>( 5 ), xml ); break;
  case 3: { PL<T> l; l.resize( (std::size_t)c.choose( 4, "size" ) ); int const b = c.choose( 24, "value" ); for( std::size_t i = 0; i < l.size(); ++i ) l[ i ] = oddPi<T>( b + (int)i ); roundTrip( c, l, PL<T>( (std::size_t)c.choose( 3, "old size" ), oddPi<T>( 3 ) ), xml ); break; }
  case 4: { std::size_t const r = (std::size_t)c.choose( 4, "rows" ), k = r ? (std::size_t)c.choose( 4, "columns" ) : 0; BM<T> m( r, k ); for( std::size_t i = 0; i < r; ++i ) for( std::size_t j = 0; j < k; ++j ) m( i, j ) = oddBq<T>( (int)( 3 * i + j ) ); roundTrip( c, m, BM<T>( (std::size_t)c.choose( 3, "old rows" ), 1 ), false ); break; }
  }
}
template<typename T> static std::string num( T v ) { std::ostringstream s; s.precision( 17 ); s << v; return s.str(); }
// JSON and XML texts composed by hand: order of keys, optional a0, missing entries.
template<typename T> static void handText( Chooser & c )
{
  bool const xml = c.flag( "xml" ); int const a0 = c.choose( 3, "a0" ), missing = c.choose( 6, "missing entry" ); bool const reverse = c.flag( "reverse order" );
  int const wrap = c.choose( 3, "container" ); int const n = wrap == 0 ? 1 : wrap == 1 ? c.choose( 3, "elements" ) : 2;
  char const * names[ 5 ] = { "b0", "b1", "b2", "a1", "a2" }; double const values[ 5 ] = { 0.5, -0.75, 1.5, 0.125, -2 };
  auto el = [&]( int i ) {
    std::vector<std::string> parts; for( int k = 0; k < 5; ++k ) { if( k + 1 == missing && i == n - 1 ) continue; std::string v = num( values[ k ] * ( 1 + i ) ); parts.push_back( xml ? std::string( names[ k ] ) + "=\"" + v + "\"" : std::string( "\"" ) + names[ k ] + "\": " + v ); }
    if( a0 ) parts.push_back( xml ? a0 == 1 ? "a0=\"2\"" : "a0=\"-0.5\"" : a0 == 1 ? "\"a0\": 2" : "\"a0\": \"-0.5\"" );
    if( reverse ) std::reverse( parts.begin(), parts.end() );
    std::string r = xml ? "<biquad" : "{"; for( std::size_t k = 0; k < parts.size(); ++k ) r += ( xml ? " " : k ? ", " : "" ) + parts[ k ]; return r + ( xml ? "/>" : "}" ); };
  std::string txt; if( wrap == 0 ) txt = el( 0 ); else { for( int i = 0; i < n; ++i ) txt += ( !xml && i ? "," : "" ) + el( i ); txt = xml ? "<filterSpec>" + txt + "</filterSpec>" : "[" + txt + "]"; }
  if( wrap == 2 && !xml ) txt = "[" + txt + "," + txt + "]"; c.note( txt );
  auto want = [&]( int i ) { double const d = a0 == 0 ? 1 : a0 == 1 ? 2 : -0.5; BQ<T> r; for( int k = 0; k < 5; ++k ) r[ (std::size_t)k ] = (T)( values[ k ] * ( 1 + i ) / d ); return r; };
  bool const bad = missing && n > 0; c.compared();
  if( wrap == 0 ) { if( bad ) { if( !vx::throws( [&] { xml ? BQ<T>::fromXml( txt ) : BQ<T>::fromJson( txt ); } ) ) c.fail( "incomplete coefficients accepted" ); } else if( !same( xml ? BQ<T>::fromXml( txt ) : BQ<T>::fromJson( txt ), want( 0 ) ) ) c.fail( "wrong coefficients" ); return; }
  BL<T> ref( (std::size_t)n ); for( int i = 0; i < n; ++i ) ref[ (std::size_t)i ] = want( i );
  if( wrap == 1 || xml ) { if( bad ) { if( !vx::throws( [&] { xml ? BL<T>::fromXml( txt ) : BL<T>::fromJson( txt ); } ) ) c.fail( "incomplete coefficient list accepted" ); } else if( !same( xml ? BL<T>::fromXml( txt ) : BL<T>::fromJson( txt ), ref ) ) c.fail( "wrong coefficient list" ); return; }
  if( bad ) { if( !vx::throws( [&] { BM<T>::fromJson( txt ); } ) ) c.fail( "incomplete coefficient matrix accepted" ); return; }
  auto m = BM<T>::fromJson( txt ); if( m.numberOfFilters() != 2 || !same( m[ 0 ], ref ) || !same( m[ 1 ], ref ) ) c.fail( "wrong coefficient matrix" );
  std::string const ragged = "[[" + el( 0 ) + "],[" + el( 0 ) + "," + el( 1 ) + "]]", ragged2 = "[[" + el( 0 ) + "," + el( 1 ) + "],[" + el( 0 ) + "]]";
  if( !vx::throws( [&] { BM<T>::fromJson( ragged ); } ) || !vx::throws( [&] { BM<T>::fromJson( ragged2 ); } ) ) c.fail( "matrix with rows of different lengths accepted" );
}
template<typename T> static void badParametric( Chooser & c )
{
  std::vector<std::string> const j = { "{\"f\":100,\"q\":1}", "{\"type\":\"peak\",\"q\":1}", "{\"type\":\"peak\",\"f\":100}", "{\"type\":\"peek\",\"f\":100,\"q\":1}", "{\"type\":\"peak\",\"f\":\"x\",\"q\":1}", "{\"type\":\"peak\"", "" };
  std::string const t = c.pick( j, "text" ); PI<T> p = oddPi<T>( 11 ); PL<T> l( 2, oddPi<T>( 11 ) ); c.compared();
  if( !vx::throws( [&] { p.loadJson( t ); } ) || !same( p, oddPi<T>( 11 ) ) ) c.fail( "malformed description accepted or changed the object" );
  if( !vx::throws( [&] { l.loadJson( "[{\"type\":\"peak\",\"f\":100,\"q\":1}," + t + "]" ); } ) || !same( l, PL<T>( 2, oddPi<T>( 11 ) ) ) ) c.fail( "malformed list accepted or changed the object" );
}
static char const * const kTypeNames[] = { "lowpass", "highpass", "bandpass", "bandstop", "highshelf", "lowshelf", "peak", "allpass" };
static PType const kTypes[] = { PType::lowpass, PType::highpass, PType::bandpass, PType::bandstop, PType::highshelf, PType::lowshelf, PType::peak, PType::allpass };
// Audio EQ cookbook
static void cookbook( PType t, double f, double q, double gain, double fs, double out[ 5 ] )
{
  double const w = 2 * M_PI * f / fs, cw = std::cos( w ), al = std::sin( w ) / ( 2 * q ), A = std::pow( 10., gain / 40. ), sA = 2 * std::sqrt( A ) * al; double b[ 3 ], a[ 3 ] = { 1 + al, -2 * cw, 1 - al };
  switch( t )
  {
  case PType::lowpass: b[ 0 ] = b[ 2 ] = ( 1 - cw ) / 2; b[ 1 ] = 1 - cw; break;
  case PType::highpass: b[ 0 ] = b[ 2 ] = ( 1 + cw ) / 2; b[ 1 ] = -( 1 + cw ); break;
  case PType::bandpass: b[ 0 ] = al; b[ 1 ] = 0; b[ 2 ] = -al; break;
  case PType::bandstop: b[ 0 ] = b[ 2 ] = 1; b[ 1 ] = -2 * cw; break;
  case PType::allpass: b[ 0 ] = 1 - al; b[ 1 ] = -2 * cw; b[ 2 ] = 1 + al; break;
  case PType::peak: b[ 0 ] = 1 + al * A; b[ 1 ] = -2 * cw; b[ 2 ] = 1 - al * A; a[ 0 ] = 1 + al / A; a[ 2 ] = 1 - al / A; break;
  case PType::lowshelf: b[ 0 ] = A * ( A + 1 - ( A - 1 ) * cw + sA ); b[ 1 ] = 2 * A * ( A - 1 - ( A + 1 ) * cw ); b[ 2 ] = A * ( A + 1 - ( A - 1 ) * cw - sA ); a[ 0 ] = A + 1 + ( A - 1 ) * cw + sA; a[ 1 ] = -2 * ( A - 1 + ( A + 1 ) * cw ); a[ 2 ] = A + 1 + ( A - 1 ) * cw - sA; break;
  case PType::highshelf: b[ 0 ] = A * ( A + 1 + ( A - 1 ) * cw + sA ); b[ 1 ] = -2 * A * ( A - 1 + ( A + 1 ) * cw ); b[ 2 ] = A * ( A + 1 + ( A - 1 ) * cw - sA ); a[ 0 ] = A + 1 - ( A - 1 ) * cw + sA; a[ 1 ] = 2 * ( A - 1 - ( A + 1 ) * cw ); a[ 2 ] = A + 1 - ( A - 1 ) * cw - sA; break;
  }
  for( int i = 0; i < 3; ++i ) out[ i ] = b[ i ] / a[ 0 ]; out[ 3 ] = a[ 1 ] / a[ 0 ]; out[ 4 ] = a[ 2 ] / a[ 0 ];
}
template<typename T> static void calculator( Chooser & c, bool quick )
{
  using Calc = rbbl::ParametricIirCoefficientCalculator;
  int const ti = c.choose( 8, "type" ); PType const t = kTypes[ ti ];
  if( rbbl::ParametricIirCoefficientBase::typeIdToString( t ) != kTypeNames[ ti ] || rbbl::ParametricIirCoefficientBase::stringToTypeId( kTypeNames[ ti ] ) != t ) c.fail( "type name ", kTypeNames[ ti ], " is not mapped to its type" );
  double const fs = c.pick( std::vector<double>{ 48000, 44100, 1 }, "sampling frequency" ), f = fs * c.pick( quick ? std::vector<double>{ 0.001, 0.02, 0.125, 0.25, 0.4, 0.499 } : std::vector<double>{ 0.0005, 0.001, 0.005, 0.02, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.4, 0.45, 0.499 }, "frequency" ), q = c.pick( std::vector<double>{ 0.1, 0.5, 0.70710678, 1, 4, 20 }, "Q" ), g = c.pick( std::vector<double>{ 0, -24, -6, -0.5, 3, 12, 24 }, "gain" );
  double ref[ 5 ]; cookbook( t, (T)f, (T)q, (T)g, fs, ref ); PI<T> const p( t, (T)f, (T)q, (T)g );
  auto check = [&]( BQ<T> const & b, char const * what ) { for( std::size_t i = 0; i < 5; ++i ) { c.compared(); double const tol = ( sizeof( T ) == 4 ? 1e-5 : 1e-11 ) * ( 1 + std::abs( ref[ i ] ) ) * 4; if( !( std::abs( b[ i ] - ref[ i ] ) <= tol ) ) c.fail( what, " coefficient ", i, " of ", kTypeNames[ ti ], " is ", b[ i ], " instead of ", ref[ i ] ); } };
  check( Calc::calculateIirCoefficients<T>( p, (T)fs ), "returned" );
  BQ<T> b = bq<T>( 2 ); Calc::calculateIirCoefficients<T>( p, b, (T)fs ); check( b, "assigned" );
  PL<T> l( 2, p ); l[ 1 ] = PI<T>( PType::highpass, (T)( fs * 0.1 ), (T)1 );
  for( std::size_t n = 0; n < 5; ++n )
  {
    BL<T> out( n ); for( auto & e : out ) e = bq<T>( 3 );
    bool const thrown = vx::throws( [&] { Calc::calculateIirCoefficients<T>( l, out, (T)fs ); } );
    if( thrown != ( n < 2 ) ) c.fail( "list of 2 filters into ", n, " sections: ", thrown ? "rejected" : "accepted" );
    if( thrown ) continue;
    check( out[ 0 ], "list" ); if( !same( out[ 1 ], Calc::calculateIirCoefficients<T>( l[ 1 ], (T)fs ) ) ) c.fail( "second list element" );
    for( std::size_t i = 2; i < n; ++i ) if( !same( out[ i ], BQ<T>() ) ) c.fail( "unused section ", i, " is not flat" );
  }
  c.state( vx::hashStr( std::to_string( ti ) + num( f ) + num( q ) + num( g ) ) );
}
// Containers: resizing, rows, copies.
template<typename T> static void containers( Chooser & c )
{
  std::size_t const r = (std::size_t)c.choose( 4, "rows" ), k = (std::size_t)c.choose( 4, "columns" ); using PM = pml::BiquadParameterMatrix<T>;
  int const how = c.choose( 3, "constructor" );
  PM m = how == 0 ? PM( r, k ) : how == 1 ? PM( pml::MatrixParameterConfig( r, k ) ) : PM( BM<T>( r, k ) );
  std::vector<std::vector<BQ<T>>> ref( r, std::vector<BQ<T>>( k ) );
  auto check = [&]( PM const & x, char const * what ) {
    c.compared(); if( x.numberOfFilters() != ref.size() || x.numberOfSections() != ( ref.empty() ? 0 : ref[ 0 ].size() ) ) c.fail( what, ": wrong dimensions" );
    for( std::size_t i = 0; i < ref.size(); ++i ) for( std::size_t j = 0; j < ref[ i ].size(); ++j ) if( !same( x( i, j ), ref[ i ][ j ] ) || !same( x[ i ][ j ], ref[ i ][ j ] ) ) c.fail( what, ": entry ", i, ",", j ); };
  check( m, "new" );
  for( int d = 0; d < 3; ++d )
  {
    switch( c.choose( 4, "operation" ) )
    {
    case 0: { std::size_t const row = (std::size_t)c.choose( 3, "row" ), n = (std::size_t)c.choose( 4, "sections" ); BL<T> l( n ); for( std::size_t i = 0; i < n; ++i ) l[ i ] = oddBq<T>( (int)i + d );
      std::size_t const sections = ref.empty() ? 0 : ref[ 0 ].size(); bool const valid = row < ref.size() && n <= sections; bool const thrown = vx::throws( [&] { m.setFilter( row, l ); } );
      if( thrown == valid ) c.fail( "setFilter( ", row, ", ", n, " sections ) ", thrown ? "rejected" : "accepted" );
      if( valid ) for( std::size_t i = 0; i < sections; ++i ) ref[ row ][ i ] = i < n ? l[ i ] : BQ<T>(); break; }
    case 1: { std::size_t const rr = (std::size_t)c.choose( 3, "new rows" ), kk = (std::size_t)c.choose( 3, "new columns" ); m.resize( rr, kk ); ref.assign( rr, std::vector<BQ<T>>( kk ) ); break; }
    case 2: if( !ref.empty() && !ref.back().empty() ) { m( ref.size() - 1, 0 ) = oddBq<T>( 4 + d ); ref.back()[ 0 ] = oddBq<T>( 4 + d ); } break;
    case 3: { auto cl = m.clone(); PM & other = dynamic_cast<PM &>( *cl ); check( other, "clone" ); PM copy( m ); check( copy, "copy" ); PM asg( 1, 1 ); asg.assign( m ); check( asg, "assigned" );
      other.resize( 5, 5 ); copy.resize( 5, 4 ); if( !ref.empty() && !ref[ 0 ].empty() ) asg( 0, 0 ) = oddBq<T>( 6 ); break; }
    }
    check( m, "after operation" );
  }
}
int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary();
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  x.add( "history", [q]( Chooser & c ) { history( c, q ); }, 5 );
  x.add( "kernel-float", [q]( Chooser & c ) { kernel<float>( c, q ); } ); x.add( "kernel-double", [q]( Chooser & c ) { kernel<double>( c, q ); } );
  x.add( "text-float", []( Chooser & c ) { text<float>( c ); } ); x.add( "text-double", []( Chooser & c ) { text<double>( c ); } );
  x.add( "handtext-float", []( Chooser & c ) { handText<float>( c ); } ); x.add( "handtext-double", []( Chooser & c ) { handText<double>( c ); } );
  x.add( "badparametric", []( Chooser & c ) { badParametric<float>( c ); }, 1 );
  x.add( "calculator-float", [q]( Chooser & c ) { calculator<float>( c, q ); } ); x.add( "calculator-double", [q]( Chooser & c ) { calculator<double>( c, q ); } );
  x.add( "containers", []( Chooser & c ) { containers<float>( c ); } );
  return x.run();
}
