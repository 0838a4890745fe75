//! LIBS: signalflows panningdsp reverbobject visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile -lboost_thread -lpthread
// The complete object renderer: histories of scenes and listener positions; every output sample is compared with a double-precision reference of the whole chain
// (object level and equalisation, panning, diffusion, listener compensation, subwoofers, output equalisation and adjustment, channel assignment).
#include "panref.hpp"
#include "objects.hpp"
#include "runner.hpp"
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <librbbl/parametric_iir_coefficient_calculator.hpp>
#include <libsignalflows/baseline_renderer.hpp>
#include <libsignalflows/bunch_renderer.hpp>
#include <libsignalflows/core_renderer.hpp>
#include <arpa/inet.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <unistd.h>
using T = om::ObjectTypeId;
static std::size_t const M = 5; static double const kPi = std::acos( -1.0 );
// --- Objects
struct Proto { T type; std::vector<unsigned> ch; V3 pos; float diff; std::vector<std::vector<std::string>> out; float level; std::vector<int> eq; };
using Scene = std::map<unsigned, Proto>;
static EqCoeff eqOf( int k ) { return EqCoeff( (Eq)k, 900.f * (float)( k + 1 ), 0.7f, -3.f + 2.f * (float)k ); }
static std::vector<Proto> const & universe( int slot )
{
  static std::vector<Proto> const a{
    { T::PointSource, { 2 }, { { 1, 0.3, 0.1 } }, 0, {}, 0.5f, {} }, { T::PointSourceWithDiffuseness, { 2 }, { { -0.4, 1.2, 0.3 } }, 0.25f, {}, 1, { 6 } }, { T::PlaneWave, { 2 }, { { -150, 10, 1 } }, 0, {}, 2, { 7, 1 } }, { T::DiffuseSource, { 2 }, { { 0, 0, 0 } }, 1, {}, 0.75f, {} },
    { T::ChannelObject, { 2 }, { { 0, 0, 0 } }, 0, { { "B" } }, 1, {} }, { T::ChannelObject, { 2 }, { { 0, 0, 0 } }, 0.25f, { { "D", "A" } }, 0.5f, { 1 } }, { T::PointSource, { 7 }, { { 1, 0, 0 } }, 0, {}, 1, {} }, { T::PointSource, { 1 }, { { 0.2, -2, 0 } }, 0, {}, 1.25f, { 2 } } };
  static std::vector<Proto> const b{
    { T::PointSource, { 0 }, { { -1, -0.3, -0.4 } }, 0, {}, 2, { 1 } }, { T::HoaSource, { 4, 1, 3, 0 }, { { 0, 0, 0 } }, 0, {}, 0.75f, {} }, { T::ChannelObject, { 0, 4 }, { { 0, 0, 0 } }, 0, { { "C" }, { "A", "B" } }, 1, {} }, { T::PointSourceExtent, { 3 }, { { 0.6, 0.1, 2 } }, 1, {}, 1, {} } };
  return slot ? b : a;
}
static std::unique_ptr<om::Object> build( Proto const & p, unsigned id )
{
  auto o = om::ObjectFactory::create( p.type, id ); o->resetNumberOfChannels( p.ch.size() ); for( std::size_t k = 0; k < p.ch.size(); ++k ) o->setChannelIndex( k, p.ch[ k ] ); o->setLevel( p.level );
  EqList e( p.eq.size(), EqCoeff() ); for( std::size_t k = 0; k < p.eq.size(); ++k ) e[ k ] = eqOf( p.eq[ k ] ); o->setEqCoefficients( e );
  if( auto s = dynamic_cast<om::PointSource *>( o.get() ) ) { s->setX( (float)p.pos[ 0 ] ); s->setY( (float)p.pos[ 1 ] ); s->setZ( (float)p.pos[ 2 ] ); }
  if( auto s = dynamic_cast<om::PointSourceWithDiffuseness *>( o.get() ) ) s->setDiffuseness( p.diff );
  if( auto s = dynamic_cast<om::PlaneWave *>( o.get() ) ) { s->setIncidenceAzimuth( (float)p.pos[ 0 ] ); s->setIncidenceElevation( (float)p.pos[ 1 ] ); s->setReferenceDistance( (float)p.pos[ 2 ] ); }
  if( auto s = dynamic_cast<om::ChannelObject *>( o.get() ) ) { s->setDiffuseness( p.diff ); om::ChannelObject::OutputChannelContainer c( p.out.begin(), p.out.end() ); s->setOutputChannels( c ); }
  if( auto s = dynamic_cast<om::HoaSource *>( o.get() ) ) s->setOrder( (unsigned)std::lround( std::sqrt( (double)p.ch.size() ) ) - 1 );
  return o;
}
static bool clash( Scene const & s ) { std::set<unsigned> u; for( auto const & o : s ) for( unsigned k : o.second.ch ) if( !u.insert( k ).second ) return true; return false; }
static void put( Grid & g, std::size_t ch, std::vector<double> const & v, bool energy, double level ) { double s = 0; for( double x : v ) s += energy ? x * x : std::abs( x ); if( energy ) s = std::sqrt( s ); for( std::size_t i = 0; i < v.size(); ++i ) g[ i ][ ch ] = s > 1e-9 ? v[ i ] / s * level : 0; }
// Higher-order Ambisonics: decoding to the regular array of 40 loudspeakers that is part of the renderer, each panned to the actual array.
struct Regular { std::vector<V3> pos; Grid dec; };
static Regular const & regular()
{
  static Regular r; if( !r.pos.empty() ) return r;
  static std::string const x =
#include "libpanning/test/matlab/arrays/t-design_t8_P40.xml.cpp"
    , m =
#include "libpanning/test/matlab/arrays/decode_N8_P40_t-design_t8_P40.txt.cpp"
    ;
  LoudspeakerArray a; { Mute mu; a.loadXmlString( x ); } auto const d = pml::MatrixParameter<float>::fromString( m );
  for( std::size_t k = 0; k < a.getNumRegularSpeakers(); ++k ) { auto const & p = a.getPosition( k ); r.pos.push_back( { { p.x, p.y, p.z } } ); } r.dec.assign( 4, std::vector<double>( r.pos.size() ) ); for( std::size_t h = 0; h < 4; ++h ) for( std::size_t k = 0; k < r.pos.size(); ++k ) r.dec[ h ][ k ] = d( h, k );
  return r;
}
struct Gains { Grid direct, high, diffuse; };
static Gains panned( layout::Desc const & d, std::vector<Ls> const & ls, Scene const & s, V3 const & lis, bool bands )
{
  std::size_t const R = ls.size(); Gains g; g.direct = g.high = g.diffuse = Grid( R, std::vector<double>( M, 0.0 ) );
  auto three = [&]( std::size_t ch, std::vector<double> const & u, double diff, std::vector<double> const & where, bool square ) { std::vector<double> h; for( double x : u ) h.push_back( square ? std::sqrt( std::max( x, 0.0 ) ) : x ); put( g.direct, ch, u, !bands, 1 - diff ); put( g.high, ch, h, true, 1 - diff ); put( g.diffuse, ch, where, true, diff ); };
  for( auto const & e : s )
  {
    Proto const & p = e.second; std::vector<double> const all( R, 1.0 );
    if( p.type == T::HoaSource ) { auto const & q = regular(); for( std::size_t j = 0; j < q.pos.size(); ++j ) { V3 dir = q.pos[ j ]; for( std::size_t i = 0; i < 3; ++i ) dir[ i ] -= lis[ i ]; std::vector<double> v = vbap( d, ls, lis, dir ); double n = 0; for( double x : v ) n += x * x; n = std::sqrt( n ); if( n > 1e-9 ) for( std::size_t h = 0; h < p.ch.size(); ++h ) for( std::size_t i = 0; i < R; ++i ) { double const x = q.dec[ h ][ j ] * v[ i ] / n; g.direct[ i ][ p.ch[ h ] ] += x; g.high[ i ][ p.ch[ h ] ] += x; } } continue; }
    if( p.type == T::ChannelObject ) { for( std::size_t k = 0; k < p.ch.size(); ++k ) { std::vector<double> u( R, 0.0 ); for( auto const & l : p.out[ k ] ) for( std::size_t i = 0; i < R; ++i ) if( ls[ i ].id == l ) u[ i ] = 1; three( p.ch[ k ], u, p.diff, u, false ); } continue; }
    if( p.ch[ 0 ] >= M ) continue;
    if( p.type == T::DiffuseSource ) { put( g.diffuse, p.ch[ 0 ], all, true, 1 ); continue; }
    V3 dir = p.pos; if( p.type == T::PlaneWave ) { double const a = p.pos[ 0 ] * kPi / 180, b = p.pos[ 1 ] * kPi / 180; dir = { { std::cos( a ) * std::cos( b ), std::sin( a ) * std::cos( b ), std::sin( b ) } }; } else for( std::size_t i = 0; i < 3; ++i ) dir[ i ] -= lis[ i ];
    three( p.ch[ 0 ], vbap( d, ls, lis, dir ), p.diff, all, true );
  }
  return g;
}
// --- Signal processing elements
struct Section
{
  double c[ 5 ] = { 1, 0, 0, 0, 0 }, h1[ 7 ] = {}, h2[ 7 ] = {};
  double step( double x ) { double const y = c[ 0 ] * x + ( h1[ 3 ] * h1[ 0 ] - h1[ 5 ] * h1[ 1 ] ) + ( h2[ 4 ] * h2[ 0 ] - h2[ 6 ] * h2[ 1 ] ); std::copy( h1, h1 + 7, h2 ); h1[ 0 ] = x; h1[ 1 ] = y; std::copy( c, c + 5, h1 + 2 ); return y; }
  void set( rbbl::BiquadCoefficient<float> const & q ) { c[ 0 ] = q.b0(); c[ 1 ] = q.b1(); c[ 2 ] = q.b2(); c[ 3 ] = q.a1(); c[ 4 ] = q.a2(); }
};
struct Matrix // a gain matrix that is given its target in every period
{
  Grid cur; std::size_t len;
  std::vector<std::vector<double>> run( Grid const & target, std::vector<std::vector<double>> const & in, std::size_t N )
  {
    std::vector<std::vector<double>> out( cur.size(), std::vector<double>( N, 0.0 ) );
    for( std::size_t o = 0; o < cur.size(); ++o ) for( std::size_t i = 0; i < M; ++i ) { double const a = cur[ o ][ i ], b = target[ o ][ i ]; for( std::size_t s = 0; s < N; ++s ) out[ o ][ s ] += in[ i ][ s ] * ( a + ( b - a ) * ( len ? std::min( 1.0, double( s + 1 ) / (double)len ) : 1.0 ) ); cur[ o ][ i ] = a + ( b - a ) * ( len ? std::min( 1.0, double( N ) / (double)len ) : 1.0 ); }
    return out;
  }
};
using Line = std::vector<std::pair<double, bool>>; // complete history of a signal, and whether each sample is determined
static std::vector<double> const kLow{ 0.001921697757295, 0.003843395514590, 0.001921697757295, -1.824651307057289, 0.832338098086468 }, kHigh{ -0.914247351285939, 1.828494702571878, -0.914247351285939, -1.824651307057289, 0.832338098086468 };
struct Setup { int array; bool tracking, bands; std::size_t sections, taps, N, L, outputs; };
struct Reference
{
  Setup k; layout::Desc const & d; std::vector<Ls> ls; std::size_t R, S; Scene scene; V3 lis{ { 0, 0, 0 } }; Gains g; std::vector<double> g0, g1; std::size_t pos = 0; std::vector<std::vector<Section>> eq; std::vector<Section> low, high; Matrix direct, highM, diffuse; Grid fir; std::vector<Line> diffIn, mixed, sum; std::vector<std::vector<Section>> outEq; std::vector<bool> lost; std::vector<double> d0, d1, c0, c1; Grid subW;
  explicit Reference( Setup const & s, Grid const & f ) : k( s ), d( desc( s.array ) ), ls( speakers( d ) ), R( ls.size() ), S( d.subs.size() ), g0( M, 1.0 ), g1( M, 1.0 ), pos( s.L ), eq( M, std::vector<Section>( s.sections ) ), low( M ), high( M ), fir( f ), diffIn( R ), mixed( R ), sum( R + S ), outEq( R + S, std::vector<Section>( d.eqs ? 2 : 0 ) ), lost( R + S, false ), d0( R, 0.0 ), d1( R, 0.0 ), c0( R, 1.0 ), c1( R, 1.0 ), subW( S, std::vector<double>( R, 0.0 ) )
  {
    g = panned( d, ls, {}, lis, k.bands ); direct.cur = highM.cur = diffuse.cur = Grid( R, std::vector<double>( M, 0.0 ) ); direct.len = highM.len = diffuse.len = k.L;
    for( auto & x : low ) std::transform( kLow.begin(), kLow.end(), x.c, []( double v ) { return (double)(float)v; } ); for( auto & x : high ) std::transform( kHigh.begin(), kHigh.end(), x.c, []( double v ) { return (double)(float)v; } );
    for( std::size_t i = 0; i < R + S; ++i ) { std::string const & n = i < R ? ls[ i ].eq : d.subs[ i - R ].eq; if( d.eqs ) for( auto const & f2 : d.specs ) if( f2.name == n ) for( std::size_t b = 0; b < f2.biquads.size(); ++b ) std::transform( f2.biquads[ b ].begin(), f2.biquads[ b ].end(), outEq[ i ][ b ].c, []( double v ) { return (double)(float)v; } ); }
    for( std::size_t j = 0; j < S; ++j ) for( std::size_t n = 0; n < d.subs[ j ].assigned.size(); ++n ) for( std::size_t i = 0; i < R; ++i ) if( ls[ i ].id == d.subs[ j ].assigned[ n ] ) subW[ j ][ i ] = d.subs[ j ].weights[ n ];
  }
  void setScene( Scene const & s )
  {
    scene = s; for( std::size_t m = 0; m < M; ++m ) g0[ m ] = g0[ m ] + ( g1[ m ] - g0[ m ] ) * ( k.L ? std::min( 1.0, (double)pos / (double)k.L ) : 1.0 ); pos = 0; std::fill( g1.begin(), g1.end(), 0.0 ); std::vector<std::vector<rbbl::BiquadCoefficient<float>>> q( M, std::vector<rbbl::BiquadCoefficient<float>>( k.sections ) );
    for( auto const & e : s ) for( unsigned ch : e.second.ch ) if( ch < M ) { g1[ ch ] = e.second.level; if( e.second.eq.size() <= k.sections ) for( std::size_t n = 0; n < e.second.eq.size(); ++n ) q[ ch ][ n ] = rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<float>( eqOf( e.second.eq[ n ] ), (float)FS ); }
    for( std::size_t m = 0; m < M; ++m ) for( std::size_t n = 0; n < k.sections; ++n ) eq[ m ][ n ].set( q[ m ][ n ] );
    g = panned( d, ls, scene, lis, k.bands );
  }
  void setListener( V3 const & p )
  {
    lis = p; g = panned( d, ls, scene, lis, k.bands ); std::vector<double> r( R ); for( std::size_t i = 0; i < R; ++i ) { V3 q = ls[ i ].pos; for( std::size_t n = 0; n < 3; ++n ) q[ n ] -= p[ n ]; r[ i ] = std::sqrt( dot( q, q ) ); }
    double const m = *std::max_element( r.begin(), r.end() ); for( std::size_t i = 0; i < R; ++i ) { d1[ i ] = ( m - r[ i ] ) / 344 * FS; c1[ i ] = r[ i ] / m; }
  }
  static std::pair<double, bool> tap( Line const & l, long t, double delay ) { double const x = (double)t - delay, n = std::floor( x + 0.5 ); bool const sure = std::abs( std::abs( x - n ) - 0.5 ) > 2e-3; if( n < 0 ) return { 0, sure }; auto v = l[ (std::size_t)n ]; v.second = v.second && sure; return v; }
  // One period; out[channel][sample], and whether each value is determined.
  std::vector<Line> step( std::vector<std::vector<double>> in )
  {
    std::size_t const N = k.N; long const t0 = (long)mixed[ 0 ].size(); std::vector<std::vector<double>> lo( M ), hi( M );
    for( std::size_t m = 0; m < M; ++m ) for( std::size_t s = 0; s < N; ++s ) { double const w = k.L ? std::min( 1.0, double( pos + s + 1 ) / (double)k.L ) : 1.0; double v = in[ m ][ s ] * ( g0[ m ] + ( g1[ m ] - g0[ m ] ) * w ); for( auto & q : eq[ m ] ) v = q.step( v ); in[ m ][ s ] = v; lo[ m ].push_back( k.bands ? low[ m ].step( v ) : v ); hi[ m ].push_back( k.bands ? high[ m ].step( v ) : 0 ); }
    pos = std::min( pos + N, k.L + N );
    auto a = direct.run( g.direct, lo, N ), b = highM.run( g.high, hi, N ), c = diffuse.run( g.diffuse, in, N );
    for( std::size_t i = 0; i < R; ++i ) for( std::size_t s = 0; s < N; ++s ) { diffIn[ i ].push_back( { c[ i ][ s ], true } ); long const t = t0 + (long)s; double v = a[ i ][ s ] + b[ i ][ s ]; for( std::size_t n = 0; n < k.taps; ++n ) if( t >= (long)n ) v += fir[ i ][ n ] * diffIn[ i ][ (std::size_t)t - n ].first; mixed[ i ].push_back( { v, true } ); }
    std::vector<Line> fin( R + S, Line( N ) ); std::vector<Line> out( k.outputs, Line( N, { 0.0, true } ) );
    for( std::size_t i = 0; i < R; ++i ) for( std::size_t s = 0; s < N; ++s ) { double const w = double( s + 1 ) / (double)N, gain = c0[ i ] + ( c1[ i ] - c0[ i ] ) * w; auto v = tap( mixed[ i ], t0 + (long)s, d0[ i ] + ( d1[ i ] - d0[ i ] ) * w ); v.first *= gain; fin[ i ][ s ] = k.tracking ? v : mixed[ i ][ (std::size_t)t0 + s ]; }
    d0 = d1; c0 = c1;
    for( std::size_t j = 0; j < S; ++j ) for( std::size_t s = 0; s < N; ++s ) { std::pair<double, bool> v{ 0, true }; for( std::size_t i = 0; i < R; ++i ) if( subW[ j ][ i ] != 0 ) { v.first += subW[ j ][ i ] * fin[ i ][ s ].first; v.second = v.second && fin[ i ][ s ].second; } fin[ R + j ][ s ] = v; }
    for( std::size_t i = 0; i < R + S; ++i )
    {
      for( std::size_t s = 0; s < N; ++s ) { auto v = fin[ i ][ s ]; for( auto & q : outEq[ i ] ) v.first = q.step( v.first ); if( !outEq[ i ].empty() ) { if( !v.second ) lost[ i ] = true; v.second = !lost[ i ]; } sum[ i ].push_back( v ); }
      double const gain = i < R ? ls[ i ].gain : layout::level( d.subs[ i - R ].level ), delay = ( i < R ? ls[ i ].delay : d.subs[ i - R ].level.delay ) * FS; std::size_t const ch = (std::size_t)( i < R ? ls[ i ].ch : d.subs[ i - R ].channel ) - 1;
      for( std::size_t s = 0; s < N; ++s ) { auto v = tap( sum[ i ], t0 + (long)s, delay ); v.first *= gain; out[ ch ][ s ] = v; }
    }
    return out;
  }
};
struct Rig
{
  Chooser & c; Setup k; Grid fir; std::unique_ptr<signalflows::CoreRenderer> r; std::unique_ptr<Runner> run; Reference ref; double peak = 1, worst = 0;
  static Grid filters( Setup const & k ) { Grid f( 4, std::vector<double>( k.taps ) ); for( std::size_t i = 0; i < 4; ++i ) for( std::size_t n = 0; n < k.taps; ++n ) f[ i ][ n ] = ( (double)( ( i * 5 + n * 3 ) % 7 ) - 3 ) / 4; return f; }
  Rig( Chooser & ch, Setup const & s ) : c( ch ), k( s ), fir( filters( s ) ), ref( s, fir )
  {
    c.note( "array ", k.array, k.tracking ? ", tracking" : "", k.bands ? ", two bands" : "", ", ", k.sections, " EQ sections, diffusion filters of length ", k.taps, ", period ", k.N, ", interpolation ", k.L, ", ", k.outputs, " outputs" );
    efl::BasicMatrix<float> f( 4, k.taps, cVectorAlignmentSamples ); for( std::size_t i = 0; i < 4; ++i ) for( std::size_t n = 0; n < k.taps; ++n ) f( i, n ) = (float)fir[ i ][ n ];
    try { Mute m; SignalFlowContext ctx( k.N, (std::size_t)FS ); r.reset( new signalflows::CoreRenderer( ctx, "r", nullptr, array( k.array ), M, k.outputs, k.L, f, k.tracking ? "on" : "", k.sections, "", k.bands ) ); run.reset( new Runner( *r, k.N, M, k.outputs ) ); } catch( std::exception const & e ) { c.fail( "the renderer cannot be instantiated: ", e.what() ); }
  }
  void scene( Scene const & s ) { pml::DoubleBufferingProtocol::OutputBase * p; auto & v = control<pml::ObjectVector>( run->flow, "objectDataInput", p ); v.clear(); for( auto const & o : s ) { v.insert( *build( o.second, o.first ) ); c.note( "object ", o.first, " of type ", (int)o.second.type, " on channel ", o.second.ch[ 0 ] ); } p->swapBuffers(); c.note( "scene of ", s.size(), " objects sent" ); ref.setScene( s ); }
  void move( V3 q ) { if( ref.d.twoD ) q[ 2 ] = 0; pml::DoubleBufferingProtocol::OutputBase * p; control<pml::ListenerPosition>( run->flow, "trackingPositionInput", p ).set( (float)q[ 0 ], (float)q[ 1 ], (float)q[ 2 ] ); p->swapBuffers(); c.note( "listener at ", q[ 0 ], ",", q[ 1 ], ",", q[ 2 ] ); ref.setListener( q ); }
  void period()
  {
    if( !run->step() ) c.fail( "processing was terminated by an exception" );
    std::vector<std::vector<double>> in( M ); for( std::size_t m = 0; m < M; ++m ) in[ m ].assign( run->in[ m ].begin(), run->in[ m ].end() ); auto const want = ref.step( in ); std::uint64_t h = 3;
    for( std::size_t o = 0; o < k.outputs; ++o ) for( std::size_t s = 0; s < k.N; ++s ) { peak = std::max( peak, std::abs( want[ o ][ s ].first ) ); if( !want[ o ][ s ].second ) continue; c.compared(); double const e = std::abs( run->out[ o ][ s ] - want[ o ][ s ].first ); h = mix( h, (std::uint64_t)std::llround( want[ o ][ s ].first * 16 ) ); if( !( e <= 1e-4 * ( 100 + peak ) ) ) c.fail( "output ", o, " sample ", run->t - (long)k.N + (long)s, " is ", run->out[ o ][ s ], " instead of ", want[ o ][ s ].first ); worst = std::max( worst, e / ( 100 + peak ) ); }
    c.state( h ); if( c.verbose() ) c.note( "relative error ", worst );
  }
};
static std::vector<V3> const kListen{ { { 0.2, -0.1, 0.05 } }, { { -0.1, 0.15, 0 } }, { { 0, 0, 0 } } };
static void history( Chooser & c, Rig & r, int steps, bool small )
{
  if( c.flag( "silent start" ) ) { if( small ) return; r.period(); }
  Scene s; auto obj = [&]( int slot, bool all ) { auto const & u = universe( slot ); int const n = all ? (int)u.size() : 2, k = c.choose( n + 1, "object" ); unsigned const id = slot ? 3u : 5u; if( k < n ) s[ id ] = u[ (std::size_t)k ]; else s.erase( id ); };
  obj( 0, true ); if( small ) s[ 3 ] = universe( 1 )[ s.count( 5 ) && s[ 5 ].ch[ 0 ] == 1 ? 0 : 1 ]; else obj( 1, true ); if( clash( s ) ) return;
  r.scene( s ); r.period();
  for( int n = 0; n < steps; ++n )
  {
    switch( c.choose( small ? 4 : 5, "change" ) )
    {
    case 0: r.period(); break;
    case 1: if( !r.k.tracking ) return; r.move( kListen[ (std::size_t)( n % 3 ) ] ); break;
    case 2: if( !s.count( 5 ) ) return; s.erase( 5 ); r.scene( s ); break;
    case 3: obj( 0, false ); if( clash( s ) ) return; r.scene( s ); if( r.k.tracking && n == 1 ) r.move( kListen[ 2 ] ); break;
    case 4: obj( 1, true ); if( clash( s ) ) return; r.scene( s ); break;
    }
    r.period();
  }
  r.period(); r.period();
}
static void configurations( Chooser & c, bool q )
{
  Setup k; k.array = c.choose( 4, "array" ); k.tracking = c.flag( "tracking" ); k.bands = c.flag( "two bands" ); k.sections = c.pick( std::vector<std::size_t>{ 0, 1, 2 }, "EQ sections" ); k.taps = c.pick( std::vector<std::size_t>{ 0, 1, 5, 40 }, "diffusion filter length" ); k.N = c.pick( q ? std::vector<std::size_t>{ 16, 12 } : std::vector<std::size_t>{ 16, 12, 1, 64 }, "period" ); k.L = k.N * c.pick( std::vector<std::size_t>{ 0, 1, 3 }, "interpolation" ); k.outputs = c.pick( std::vector<std::size_t>{ 8, 11 }, "outputs" );
  if( q && ( k.N == 12 ) != ( k.outputs == 11 ) ) return; Rig r( c, k ); r.scene( { { 5, universe( 0 )[ 1 ] }, { 3, universe( 1 )[ 0 ] } } ); r.period(); r.period(); if( k.tracking ) r.move( kListen[ 0 ] ); r.period(); r.scene( { { 5, universe( 0 )[ 5 ] }, { 3, universe( 1 )[ 3 ] } } ); for( int n = 0; n < 4; ++n ) r.period();
}
static void histories( Chooser & c, int steps, bool small )
{
  static std::vector<Setup> const ks{ { 1, true, true, 2, 5, 16, 32, 9 }, { 2, true, false, 1, 3, 16, 0, 8 }, { 1, false, false, 2, 20, 16, 16, 8 }, { 3, false, true, 2, 1, 8, 24, 8 }, { 2, false, true, 2, 4, 16, 16, 10 }, { 3, true, false, 2, 2, 8, 16, 8 }, { 0, true, true, 0, 0, 16, 16, 8 } };
  Setup const k = c.pick( ks, "configuration" ); Rig r( c, k ); history( c, r, steps, small );
}
// Renderers with network interfaces: the scene and the listener position take effect at some period after their messages were sent, and only then.
static void datagram( int port, std::string const & m ) { int const f = ::socket( AF_INET, SOCK_DGRAM, 0 ); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons( (std::uint16_t)port ); a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); (void)!::sendto( f, m.data(), m.size(), 0, (sockaddr *)&a, sizeof a ); ::close( f ); }
static bool freePort( int port ) { int const f = ::socket( AF_INET, SOCK_DGRAM, 0 ); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons( (std::uint16_t)port ); bool const ok = ::bind( f, (sockaddr *)&a, sizeof a ) == 0; ::close( f ); return ok; }
static void network( Chooser & c )
{
  bool const bunch = c.flag( "bunch renderer" ), brief = !bunch && c.flag( "default settings" ); Setup k{ c.choose( 4, "array" ), !bunch && !brief && c.flag( "tracking" ), !bunch && !brief && c.flag( "two bands" ), bunch || brief ? 0u : 2u, brief ? 0u : 3u, 16, brief ? 4096u : 0u, c.pick( std::vector<std::size_t>{ 8, 9 }, "outputs" ) };
  Grid const fir = Rig::filters( k ); Reference ref( k, fir ); efl::BasicMatrix<float> f( 4, k.taps, cVectorAlignmentSamples ); for( std::size_t i = 0; i < 4; ++i ) for( std::size_t n = 0; n < k.taps; ++n ) f( i, n ) = (float)fir[ i ][ n ];
  static int next = 0; int port = 0; for( int n = 0; n < 64; ++n ) { port = 10000 + ( (int)::getpid() * 16 + next++ % 16 ) % 20000; if( freePort( port ) ) break; } int const tracker = 8888;
  struct Lock { int fd = -1; ~Lock() { if( fd >= 0 ) ::close( fd ); } } lock; if( k.tracking || brief ) { lock.fd = ::open( "/proc/self/exe", O_RDONLY ); ::flock( lock.fd, LOCK_EX ); } if( brief ) port = 4242;
  if( ( k.tracking && !freePort( tracker ) ) || ( brief && !freePort( port ) ) ) { c.note( "port in use" ); return; }
  std::unique_ptr<Component> r; std::unique_ptr<Runner> run; SignalFlowContext ctx( k.N, (std::size_t)FS );
  try { Mute m; if( bunch ) r.reset( new signalflows::BunchRenderer( ctx, "r", nullptr, array( k.array ), M, k.outputs, k.L, f, "", (std::size_t)port, "" ) ); else if( brief ) r.reset( new signalflows::BaselineRenderer( ctx, "r", nullptr, array( k.array ), M, k.outputs ) ); else r.reset( new signalflows::BaselineRenderer( ctx, "r", nullptr, array( k.array ), M, k.outputs, k.L, f, k.tracking ? "on" : "", (std::size_t)port, k.sections, "", k.bands ) ); run.reset( new Runner( *r, k.N, M, k.outputs ) ); } catch( std::exception const & e ) { c.fail( "the renderer cannot be instantiated: ", e.what() ); }
  double peak = 1; auto agrees = [&]( Reference & x ) { std::vector<std::vector<double>> in( M ); for( std::size_t m = 0; m < M; ++m ) in[ m ].assign( run->in[ m ].begin(), run->in[ m ].end() ); auto const w = x.step( in ); for( auto const & l : w ) for( auto const & v : l ) peak = std::max( peak, std::abs( v.first ) ); for( std::size_t o = 0; o < k.outputs; ++o ) for( std::size_t s = 0; s < k.N; ++s ) { c.compared(); if( w[ o ][ s ].second && !( std::abs( run->out[ o ][ s ] - w[ o ][ s ].first ) <= 2e-4 * ( 100 + peak ) ) ) return false; } return true; };
  auto refs = std::vector<std::unique_ptr<Reference>>(); refs.emplace_back( new Reference( ref ) );
  auto cycle = [&]( char const * what, std::function<void( Reference & )> change )
  {
    for( int n = 0; n < 5000; ++n )
    {
      if( !run->step() ) c.fail( "processing was terminated by an exception" );
      std::unique_ptr<Reference> after( new Reference( *refs[ 0 ] ) ); change( *after ); if( agrees( *after ) ) { refs[ 0 ] = std::move( after ); return; }
      if( !agrees( *refs[ 0 ] ) ) c.fail( "after the ", what, ", the output agrees neither with the former nor with the new one" ); ::usleep( 1000 );
    }
    c.fail( "the ", what, " had no effect" );
  };
  auto quiet = [&]( int n ) { for( int i = 0; i < n; ++i ) { if( !run->step() ) c.fail( "processing was terminated by an exception" ); if( !agrees( *refs[ 0 ] ) ) c.fail( "the output differs from the reference" ); } };
  quiet( 2 );
  for( auto const & s : std::vector<Scene>{ { { 5, universe( 0 )[ 0 ] }, { 3, universe( 1 )[ 2 ] } }, { { 5, universe( 0 )[ 1 ] } } } ) { om::ObjectVector v; for( auto const & o : s ) v.insert( *build( o.second, o.first ) ); c.note( "scene to port ", port ); datagram( port, encode( v ) ); cycle( "scene", [&]( Reference & x ) { x.setScene( s ); } ); quiet( 3 ); break; }
  if( k.tracking ) { datagram( tracker, "{ \"x\": 0.3, \"y\": -0.2, \"z\": 0.0 }" ); V3 const lis{ { 0.3, -0.2, 0 } }; cycle( "listener position", [&]( Reference & x ) { x.setListener( lis ); } ); quiet( 3 ); }
}
// Renderers that cannot exist.
static void rejected( Chooser & c )
{
  int const what = c.choose( 4, "fault" ); layout::Desc d = desc( c.choose( 4, "array" ) ); std::size_t outputs = 8, rows = 4, taps = 3; bool ok = true;
  switch( what ) { case 0: outputs = 7; ok = false; break; case 1: if( !d.subs.empty() ) { d.subs[ 0 ].channel = 9; ok = false; } break; case 2: if( !d.subs.empty() ) { d.subs[ 0 ].channel = 4; ok = false; } break; case 3: outputs = 4; ok = false; break; }
  std::string got; efl::BasicMatrix<float> f( rows, taps, cVectorAlignmentSamples );
  try { Mute m; LoudspeakerArray a; a.loadXmlString( xml( d ) ); SignalFlowContext ctx( 16, 48000 ); signalflows::CoreRenderer r( ctx, "r", nullptr, a, M, outputs, 16, f, "", 1, "", false ); rrl::AudioSignalFlow fl( r ); } catch( std::exception const & e ) { got = e.what(); }
  c.compared(); if( ok != got.empty() ) c.fail( ok ? "valid configuration rejected: " : "inadmissible configuration accepted", got );
}
int main( int argc, char ** argv )
{
  Explorer x( argc, argv ); bool const q = x.quick(); pml::initialiseParameterLibrary();
  x.add( "configurations", [q]( Chooser & c ) { configurations( c, q ); }, 4 );
  x.add( "histories", [q]( Chooser & c ) { histories( c, q ? 1 : 2, false ); }, 4 );
  x.add( "updates", [q]( Chooser & c ) { histories( c, q ? 2 : 4, true ); }, 4 );
  x.add( "network", network, 1 );
  x.add( "rejected", rejected, 1 );
  return x.run();
}
