//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
// Scene calculators: sequences of scenes and listener positions over a universe of objects; after each period every gain, equaliser and routing is compared with the value that the
// current scene and listener alone determine.
#include "layout.hpp"
#include "objects.hpp"
#include "runner.hpp"
#include <libpanning/AllRAD.h>
#include <libpanning/CAP.h>
#include <libpanning/CAP_VBAP.h>
#include <libpanning/VBAP.h>
#include <libpml/biquad_parameter.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/parametric_iir_coefficient_calculator.hpp>
#include <librcl/cap_gain_calculator.hpp>
#include <librcl/channel_object_routing_calculator.hpp>
#include <librcl/diffusion_gain_calculator.hpp>
#include <librcl/hoa_allrad_gain_calculator.hpp>
#include <librcl/object_gain_eq_calculator.hpp>
#include <librcl/panning_calculator.hpp>
using namespace vx; using layout::LoudspeakerArray; using Panner = rcl::PanningCalculator; using Mode = Panner::PanningMode; using Norm = Panner::Normalisation; using V3 = std::array<float, 3>; using T = om::ObjectTypeId;
static std::size_t const M = 10; // signal channels
struct Proto { T type; std::vector<unsigned> ch; V3 pos; float diff; std::vector<std::vector<std::string>> out; float level; std::vector<int> eq; };
static bool mono( Proto const & p ) { return p.ch.size() == 1; }
static bool isPoint( T t ) { return t == T::PointSource || t == T::PointSourceWithDiffuseness || t == T::PointSourceExtent || t == T::PointSourceWithReverb; }
static bool hasDiff( T t ) { return t == T::PointSourceWithDiffuseness || t == T::PointSourceExtent || t == T::ChannelObject; }
static std::vector<Proto> const & universe( int slot )
{
  static std::vector<Proto> u[ 2 ]; auto & v = u[ slot ]; if( !v.empty() ) return v;
  unsigned const a = slot ? 9u : 2u, b = slot ? 1u : 0u, d = slot ? 3u : 4u, e = slot ? 5u : 6u;
  v = { { T::PointSource, { a }, { { 1, 0, 0 } }, 0, {}, 0.5f, {} }, { T::PointSource, { b }, { { 0.7f, 0.7f, 0 } }, 0, {}, 1, { 0 } }, { T::PointSource, { a }, { { -1.5f, 0.4f, 0.3f } }, 0, {}, 2, { 1, 2 } }, { T::PointSource, { a }, { { 0, 1, 0 } }, 0, {}, 0, {} },
        { T::PointSourceWithDiffuseness, { a }, { { 1, 0.2f, 0 } }, 0.25f, {}, 1, { 3 } }, { T::PointSourceWithDiffuseness, { a }, { { 1, 0, 0 } }, 1, {}, 0.5f, {} }, { T::PointSourceWithDiffuseness, { b }, { { -1, -1, 0.5f } }, 0, {}, 1, {} }, { T::PointSourceExtent, { a }, { { 0, -2, 0 } }, 0.75f, {}, 1, {} }, { T::PointSourceWithReverb, { a }, { { 0.5f, 2, -0.5f } }, 0, {}, 0.25f, { 4 } },
        { T::PlaneWave, { a }, { { 30, 0, 1 } }, 0, {}, 1, {} }, { T::PlaneWave, { b }, { { -110, 20, 5 } }, 0, {}, 1, { 5 } }, { T::DiffuseSource, { a }, { { 0, 0, 0 } }, 1, {}, 0.5f, {} },
        { T::ChannelObject, { a }, { { 0, 0, 0 } }, 0, { { "B" } }, 1, {} }, { T::ChannelObject, { b }, { { 0, 0, 0 } }, 0.25f, { { "D", "A" } }, 0.5f, {} }, { T::ChannelObject, { a, b }, { { 0, 0, 0 } }, 0, { { "C" }, { "A" } }, 1, { 6 } }, { T::ChannelObject, { b, a }, { { 0, 0, 0 } }, 1, { {}, { "B", "C", "D" } }, 1, {} },
        { T::HoaSource, { a, b, d, e }, { { 0, 0, 0 } }, 0, {}, 0.75f, { 7, 0 } }, { T::HoaSource, { e }, { { 0, 0, 0 } }, 0, {}, 1, {} }, { T::PointSource, { a, b }, { { 1, 0, 0 } }, 0, {}, 0.5f, {} },
        // not admissible: channels, labels or equalisers that do not exist
        { T::PointSource, { 10 }, { { 1, 0, 0 } }, 0, {}, 0.5f, {} }, { T::PointSourceWithDiffuseness, { 17 }, { { 1, 1, 0 } }, 0.5f, {}, 1, { 0 } }, { T::DiffuseSource, { 65535 }, { { 0, 0, 0 } }, 1, {}, 1, {} }, { T::PlaneWave, { 10 }, { { 30, 0, 1 } }, 0, {}, 1, {} },
        { T::ChannelObject, { 10 }, { { 0, 0, 0 } }, 0, { { "A" } }, 1, {} }, { T::ChannelObject, { 10, a }, { { 0, 0, 0 } }, 0, { { "A" }, { "D" } }, 1, {} }, { T::ChannelObject, { a, 12 }, { { 0, 0, 0 } }, 0.5f, { { "C" }, { "D" } }, 1, {} }, { T::ChannelObject, { a }, { { 0, 0, 0 } }, 0, { { "X" } }, 1, {} }, { T::ChannelObject, { b }, { { 0, 0, 0 } }, 0, { { "X", "B" } }, 1, {} }, { T::ChannelObject, { b, a }, { { 0, 0, 0 } }, 0, { { "X" }, { "B" } }, 1, {} },
        { T::HoaSource, { a, b, d, 10 }, { { 0, 0, 0 } }, 0, {}, 1, {} }, { T::HoaSource, { 0, 1, 2, 3, 4, 5, 6, 7, 8 }, { { 0, 0, 0 } }, 0, {}, 1, {} }, { T::PointSource, { a }, { { 1, 0, 0 } }, 0, {}, 0.5f, { 0, 1, 2 } } };
  return v;
}
static EqCoeff eqOf( int k ) { return EqCoeff( (Eq)k, 500.f * (float)( k + 1 ), 0.7f, -3.f + 2.f * (float)k ); }
static std::unique_ptr<om::Object> build( Proto const & p, unsigned id )
{
  auto o = om::ObjectFactory::create( p.type, id ); o->resetNumberOfChannels( p.ch.size() ); for( std::size_t k = 0; k < p.ch.size(); ++k ) o->setChannelIndex( k, p.ch[ k ] ); o->setLevel( p.level );
  EqList e( p.eq.size(), EqCoeff() ); for( std::size_t k = 0; k < p.eq.size(); ++k ) e[ k ] = eqOf( p.eq[ k ] ); o->setEqCoefficients( e );
  if( auto s = dynamic_cast<om::PointSource *>( o.get() ) ) { s->setX( p.pos[ 0 ] ); s->setY( p.pos[ 1 ] ); s->setZ( p.pos[ 2 ] ); }
  if( auto s = dynamic_cast<om::PointSourceWithDiffuseness *>( o.get() ) ) s->setDiffuseness( p.diff );
  if( auto s = dynamic_cast<om::PlaneWave *>( o.get() ) ) { s->setIncidenceAzimuth( p.pos[ 0 ] ); s->setIncidenceElevation( p.pos[ 1 ] ); s->setReferenceDistance( p.pos[ 2 ] ); }
  if( auto s = dynamic_cast<om::ChannelObject *>( o.get() ) ) { s->setDiffuseness( p.diff ); om::ChannelObject::OutputChannelContainer c( p.out.begin(), p.out.end() ); s->setOutputChannels( c ); }
  if( auto s = dynamic_cast<om::HoaSource *>( o.get() ) ) s->setOrder( (unsigned)std::lround( std::sqrt( (double)p.ch.size() ) ) - 1 );
  return o;
}
using Scene = std::map<unsigned, Proto>; // object id -> object
static bool clash( Scene const & s ) { std::set<unsigned> u; for( auto const & o : s ) for( unsigned k : o.second.ch ) if( k < M && !u.insert( k ).second ) return true; return false; }
static std::map<std::string, std::size_t> const kIndex{ { "C", 0 }, { "A", 1 }, { "D", 2 }, { "B", 3 } }; // by ascending channel number, see array()
static LoudspeakerArray const & array( bool twoD )
{
  static std::unique_ptr<LoudspeakerArray> made[ 2 ]; if( made[ twoD ] ) return *made[ twoD ];
  layout::Desc d; d.twoD = twoD; auto sp = [&]( char const * id, long ch, double az, double el ) { d.ls.push_back( { id, ch, { true, az, el, 1.5 }, {}, "" } ); };
  if( twoD ) { sp( "A", 3, 40, 0 ); sp( "B", 9, -35, 0 ); sp( "C", 1, 130, 0 ); sp( "D", 4, -120, 0 ); d.tri = { { { "A", "B", "" } }, { { "A", "C", "" } }, { { "C", "D", "" } }, { { "D", "B", "" } } }; }
  else { sp( "A", 3, 30, 5 ); sp( "B", 9, -30, 0 ); sp( "C", 1, 160, 10 ); sp( "D", 4, 0, 75 ); d.vs.push_back( { "V", { true, 0, -70, 1.5 }, { { "A", -6 }, { "C", -3 } } } ); d.vs.push_back( { "W", { true, -110, 10, 1.5 }, {} } );
    d.tri = { { { "A", "B", "D" } }, { { "A", "B", "V" } }, { { "A", "C", "D" } }, { { "A", "C", "V" } }, { { "C", "W", "D" } }, { { "C", "W", "V" } }, { { "W", "B", "D" } }, { { "W", "B", "V" } } }; }
  Mute m; made[ twoD ].reset( new LoudspeakerArray ); made[ twoD ]->loadXmlString( xml( d ) ); return *made[ twoD ];
}
static std::vector<V3> const kListen{ { { 0, 0, 0 } }, { { 0.2f, -0.1f, 0.05f } }, { { -0.1f, 0.15f, 0 } } };
// One calculator with its current inputs.
struct Rig
{
  Chooser & c; SignalFlowContext ctx{ 16, 48000 }; std::unique_ptr<Component> comp; std::unique_ptr<Runner> run; pml::DoubleBufferingProtocol::OutputBase * obj = nullptr, * lis = nullptr; Scene scene; V3 listener = kListen[ 0 ]; bool sent = false, told = false;
  explicit Rig( Chooser & ch ) : c( ch ) {}
  void start( Component * p, char const * objPort, char const * lisPort )
  {
    comp.reset( p ); run.reset( new Runner( *comp, 16, 0, 0 ) ); obj = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase *>( &run->flow.externalParameterReceivePort( objPort ) ); if( lisPort ) lis = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase *>( &run->flow.externalParameterReceivePort( lisPort ) );
  }
  void send( Scene const & s ) { scene = s; auto & v = dynamic_cast<pml::ObjectVector &>( obj->data() ); v.clear(); for( auto const & o : s ) { v.insert( *build( o.second, o.first ) ); c.note( "object ", o.first, " type ", (int)o.second.type, " channel ", o.second.ch.empty() ? -1 : (int)o.second.ch[ 0 ], " of ", o.second.ch.size() ); } obj->swapBuffers( c.verbose() ); sent = true; }
  void move( V3 const & p ) { if( !lis ) return; listener = p; told = true; dynamic_cast<pml::ListenerPosition &>( lis->data() ).set( p[ 0 ], p[ 1 ], p[ 2 ] ); lis->swapBuffers(); c.note( "listener ", p[ 0 ], ",", p[ 1 ], ",", p[ 2 ] ); }
  void step() { if( !run->step() ) c.fail( "processing was terminated by an exception" ); }
  template<typename P> P const & shared( char const * n ) { return dynamic_cast<P const &>( dynamic_cast<pml::SharedDataProtocol::InputBase &>( run->flow.externalParameterSendPort( n ) ).data() ); }
  pml::DoubleBufferingProtocol::InputBase & buffered( char const * n ) { return dynamic_cast<pml::DoubleBufferingProtocol::InputBase &>( run->flow.externalParameterSendPort( n ) ); }
};
using Gains = std::vector<std::vector<double>>; // loudspeaker x channel
static void same( Chooser & c, pml::MatrixParameter<float> const & m, Gains const & w, char const * what )
{
  if( m.numberOfRows() != w.size() || m.numberOfColumns() != M ) c.fail( what, ": dimension" );
  std::uint64_t h = 1; for( std::size_t i = 0; i < w.size(); ++i ) for( std::size_t k = 0; k < M; ++k ) { c.compared(); double const g = m( i, k ); h = mix( h, (std::uint64_t)std::llround( w[ i ][ k ] * 1e4 ) ); if( !( std::abs( g - w[ i ][ k ] ) <= 2e-5 * ( 1 + std::abs( w[ i ][ k ] ) ) ) ) c.fail( what, ": gain of channel ", k, " at loudspeaker ", i, " is ", g, " instead of ", w[ i ][ k ] ); }
  c.state( h );
}
static void put( Gains & g, std::size_t ch, std::vector<double> const & v, Norm n, double level )
{
  double s = 0; for( double x : v ) s += n == Norm::Amplitude ? std::abs( x ) : x * x; if( n == Norm::Energy ) s = std::sqrt( s ); for( std::size_t i = 0; i < v.size(); ++i ) g[ i ][ ch ] = s > 0 ? v[ i ] / s * level : 0;
}
static V3 direction( Proto const & p ) { double const q = std::acos( -1.0 ) / 180; return { { (float)( std::cos( p.pos[ 0 ] * q ) * std::cos( p.pos[ 1 ] * q ) ), (float)( std::sin( p.pos[ 0 ] * q ) * std::cos( p.pos[ 1 ] * q ) ), (float)std::sin( p.pos[ 1 ] * q ) } }; }
// The history: scene with two objects, followed by one or more changes.
static void history( Chooser & c, Rig & r, bool small, int steps, std::function<void()> check )
{
  check(); // before any scene
  Scene s; auto obj = [&]( int slot ) { auto const & u = universe( slot ); int const n = (int)u.size(), k = c.choose( n + 1, "object" ); unsigned const id = slot ? 3u : 5u; if( k < n ) s[ id ] = u[ (std::size_t)k ]; else s.erase( id ); };
  obj( 0 ); if( !small ) obj( 1 ); else s[ 3 ] = universe( 1 )[ 4 ];
  if( clash( s ) ) return; r.send( s ); if( c.flag( "listener first" ) ) { if( !r.lis ) return; r.move( kListen[ 1 ] ); }
  r.step(); check();
  for( int k = 0; k < steps; ++k )
  {
    int const op = c.choose( 6, "change" );
    switch( op )
    {
    case 0: r.send( {} ); break;
    case 1: s.erase( 5 ); r.send( s ); break;
    case 2: break; // nothing arrives
    case 3: if( !r.lis ) return; r.move( kListen[ 2 ] ); break;
    case 4: { if( s.count( 5 ) && !small ) std::swap( s[ 5 ], s[ 3 ] ); else if( steps > 2 && !small ) obj( 0 ); else s[ 5 ] = universe( 0 )[ 6 ]; if( clash( s ) ) return; r.send( s ); break; }
    case 5: if( !r.lis || small ) return; r.move( kListen[ 0 ] ); s.erase( 3 ); r.send( s ); break;
    }
    r.step(); check();
  }
}
static void panner( Chooser & c, bool small, int steps )
{
  bool const twoD = c.flag( "2D" ); LoudspeakerArray const & a = array( twoD ); std::size_t const R = a.getNumRegularSpeakers(); std::vector<Mode> const modes{ Mode::All, Mode::LF, Mode::HF, Mode::Dualband, Mode::LF | Mode::Diffuse, Mode::Diffuse, Mode::HF | Mode::Diffuse };
  Mode const mode = small ? c.pick( modes, "mode" ) : Mode::All; bool const adaptive = small ? c.flag( "adaptive" ) : true; int const norm = small ? c.choose( 3, "normalisation" ) : 0; bool const off = c.flag( "initial listener" ); if( off && !small ) return;
  Norm const kn[] = { Norm::Default, Norm::Amplitude, Norm::Energy }; bool const hf = ( mode & Mode::HF ) != Mode::Nothing; Norm const nl = norm ? kn[ norm ] : hf ? Norm::Amplitude : Norm::Energy, nh = norm ? kn[ 3 - norm ] : Norm::Energy, nd = norm ? kn[ norm ] : Norm::Energy;
  Rig r( c ); r.listener = kListen[ off ? 1 : 0 ]; pml::ListenerPosition const lp( r.listener[ 0 ], r.listener[ 1 ], r.listener[ 2 ] );
  { Mute m; r.start( new Panner( r.ctx, "p", nullptr, M, a, adaptive, mode, kn[ norm ], norm ? kn[ 3 - norm ] : Norm::Default, kn[ norm ], lp ), "objectVectorInput", adaptive ? "listenerPosition" : nullptr ); }
  history( c, r, small, steps, [&]
  {
    Gains lf( R, std::vector<double>( M, 0.0 ) ), hg = lf, dg = lf; panning::VBAP v( a, r.listener[ 0 ], r.listener[ 1 ], r.listener[ 2 ] );
    for( auto const & e : r.scene )
    {
      Proto const & p = e.second; double const diff = hasDiff( p.type ) ? p.diff : 0;
      if( p.type == T::ChannelObject ) { for( std::size_t k = 0; k < p.ch.size(); ++k ) { if( p.ch[ k ] >= M ) continue; std::vector<double> g( R, 0.0 ); for( auto const & l : p.out[ k ] ) if( kIndex.count( l ) ) g[ kIndex.at( l ) ] = 1; put( lf, p.ch[ k ], g, nl, 1 - diff ); put( hg, p.ch[ k ], g, nh, 1 - diff ); put( dg, p.ch[ k ], g, nd, diff ); } continue; }
      if( !mono( p ) || p.ch[ 0 ] >= M ) continue;
      if( p.type == T::DiffuseSource ) put( dg, p.ch[ 0 ], std::vector<double>( R, 1.0 ), nd, 1 );
      if( isPoint( p.type ) || p.type == T::PlaneWave )
      {
        std::vector<float> u( R ); V3 const d = isPoint( p.type ) ? p.pos : direction( p ); v.calculateGainsUnNormalised( d[ 0 ], d[ 1 ], d[ 2 ], u.data(), !isPoint( p.type ) );
        std::vector<double> g( u.begin(), u.end() ), h; for( double x : g ) h.push_back( std::sqrt( std::max( x, 0.0 ) ) ); put( lf, p.ch[ 0 ], g, nl, 1 - diff ); put( hg, p.ch[ 0 ], h, nh, 1 - diff ); put( dg, p.ch[ 0 ], std::vector<double>( R, 1.0 ), nd, diff );
      }
    }
    if( ( mode & Mode::LF ) != Mode::Nothing ) same( c, r.shared<pml::MatrixParameter<float>>( "vbapGains" ), lf, "low-frequency gains" );
    if( hf ) same( c, r.shared<pml::MatrixParameter<float>>( "vbipGains" ), hg, "high-frequency gains" );
    if( ( mode & Mode::Diffuse ) != Mode::Nothing ) same( c, r.shared<pml::MatrixParameter<float>>( "diffuseGains" ), dg, "diffuse gains" );
  } );
}
// One point source or plane wave, at and between all loudspeakers and around.
static void sources( Chooser & c, int n )
{
  bool const twoD = c.flag( "2D" ); LoudspeakerArray const & a = array( twoD ); std::size_t const R = a.getNumRegularSpeakers(), S = a.getNumSpeakers(); V3 const l = c.pick( kListen, "listener" ); Rig r( c ); r.listener = l; { Mute m; r.start( new Panner( r.ctx, "p", nullptr, M, a, false, Mode::All, Norm::Default, Norm::Default, Norm::Default, pml::ListenerPosition( l[ 0 ], l[ 1 ], l[ 2 ] ) ), "objectVectorInput", nullptr ); }
  std::vector<V3> ps; for( std::size_t i = 0; i < S; ++i ) for( std::size_t k = 0; k <= i; ++k ) { auto const & p = a.getPosition( i ), & q = a.getPosition( k ); for( float f : { 0.5f, 0.25f } ) ps.push_back( { { f * p.x + ( 1 - f ) * q.x, f * p.y + ( 1 - f ) * q.y, f * p.z + ( 1 - f ) * q.z } } ); }
  for( int x = -n; x <= n; ++x ) for( int y = -n; y <= n; ++y ) for( int z = -1; z <= 1; ++z ) if( x || y ) ps.push_back( { { (float)x, (float)y, (float)z } } );
  V3 const p = c.pick( ps, "source" ); Proto o{ T::PointSource, { 4 }, p, 0, {}, 1, {} }; r.send( { { 1u, o } } ); r.step(); panning::VBAP v( a, l[ 0 ], l[ 1 ], l[ 2 ] ); std::vector<float> u( R ); v.calculateGainsUnNormalised( p[ 0 ], p[ 1 ], p[ 2 ], u.data(), false );
  Gains lf( R, std::vector<double>( M, 0.0 ) ), hg = lf; double big = 0; std::vector<double> g( u.begin(), u.end() ), h; for( double x : g ) { h.push_back( std::sqrt( std::max( x, 0.0 ) ) ); big = std::max( big, std::abs( x ) ); } if( big < 1e-4 ) return; put( lf, 4, g, Norm::Amplitude, 1 ); put( hg, 4, h, Norm::Energy, 1 );
  same( c, r.shared<pml::MatrixParameter<float>>( "vbapGains" ), lf, "low-frequency gains" ); same( c, r.shared<pml::MatrixParameter<float>>( "vbipGains" ), hg, "high-frequency gains" );
}
static void gainEq( Chooser & c, bool small, int steps )
{
  Rig r( c ); std::size_t const sections = small ? (std::size_t)c.choose( 3, "sections" ) + 1 : 2; r.start( new rcl::ObjectGainEqCalculator( r.ctx, "p", nullptr, M, sections ), "objectIn", nullptr );
  auto & g = r.buffered( "gainOut" ); auto & e = r.buffered( "eqOut" ); bool any = false;
  history( c, r, small, steps, [&]
  {
    if( g.changed() != r.sent || e.changed() != r.sent ) c.fail( "change notification" ); any = any || r.sent; r.sent = false; g.resetChanged(); e.resetChanged();
    if( !any ) return; // no scene so far
    auto const & gv = dynamic_cast<pml::VectorParameter<float> const &>( g.data() ); auto const & em = dynamic_cast<pml::BiquadParameterMatrix<float> const &>( e.data() ); std::vector<double> want( M, 0.0 ); std::vector<std::vector<rbbl::BiquadCoefficient<float>>> eq( M, std::vector<rbbl::BiquadCoefficient<float>>( sections ) );
    for( auto const & x : r.scene ) for( unsigned k : x.second.ch ) if( k < M ) { want[ k ] = x.second.level; if( x.second.eq.size() <= sections ) for( std::size_t s = 0; s < x.second.eq.size(); ++s ) eq[ k ][ s ] = rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<float>( eqOf( x.second.eq[ s ] ), 48000.f ); }
    if( gv.size() != M || em.numberOfFilters() != M || em.numberOfSections() != sections ) c.fail( "dimension" );
    std::uint64_t h = 0; for( std::size_t k = 0; k < M; ++k ) { c.compared(); h = mix( h, (std::uint64_t)( want[ k ] * 64 ) ); if( gv[ k ] != (float)want[ k ] ) c.fail( "gain of channel ", k, " is ", gv[ k ], " instead of ", want[ k ] ); for( std::size_t s = 0; s < sections; ++s ) for( std::size_t q = 0; q < 5; ++q ) { float const w = eq[ k ][ s ][ q ]; h = mix( h, (std::uint64_t)std::llround( w * 1e4f ) ); if( std::abs( em( k, s )[ q ] - w ) > 1e-6f * ( 1 + std::abs( w ) ) ) c.fail( "coefficient ", q, " of section ", s, " of channel ", k, " is ", em( k, s )[ q ], " instead of ", w ); } }
    c.state( h );
  } );
}
static void diffusion( Chooser & c, bool small, int steps )
{
  Rig r( c ); r.start( new rcl::DiffusionGainCalculator( r.ctx, "p", nullptr, M ), "objectInput", nullptr );
  history( c, r, small, steps, [&]
  {
    auto const & m = r.shared<pml::MatrixParameter<float>>( "gainOutput" ); std::set<unsigned> skip; Gains w( 1, std::vector<double>( M, 0.0 ) );
    for( auto const & x : r.scene ) if( mono( x.second ) && x.second.ch[ 0 ] < M ) { if( x.second.type == T::DiffuseSource ) w[ 0 ][ x.second.ch[ 0 ] ] = 1; if( x.second.type == T::PointSourceWithDiffuseness ) w[ 0 ][ x.second.ch[ 0 ] ] = x.second.diff; if( x.second.type == T::PointSourceExtent || x.second.type == T::ChannelObject ) w[ 0 ][ x.second.ch[ 0 ] ] = m( 0, x.second.ch[ 0 ] ); } // diffuse parts of extended sources and channel objects: not settled
    same( c, m, w, "diffuse gains" );
  } );
}
static void routing( Chooser & c, bool small, int steps )
{
  LoudspeakerArray const & a = array( c.flag( "2D" ) ); Rig r( c ); r.start( new rcl::ChannelObjectRoutingCalculator( r.ctx, "p", nullptr, M, a ), "objectIn", nullptr ); auto & o = r.buffered( "routingOut" ); bool any = false;
  history( c, r, small, steps, [&]
  {
    if( o.changed() != r.sent ) c.fail( "change notification" ); any = any || r.sent; r.sent = false; o.resetChanged(); std::map<std::size_t, std::set<std::size_t>> in; std::map<std::size_t, std::size_t> got; std::string t;
    for( auto const & x : r.scene ) if( x.second.type == T::ChannelObject ) for( std::size_t k = 0; k < x.second.ch.size(); ++k ) if( x.second.ch[ k ] < M && x.second.out[ k ].size() == 1 && kIndex.count( x.second.out[ k ][ 0 ] ) ) in[ kIndex.at( x.second.out[ k ][ 0 ] ) ].insert( x.second.ch[ k ] );
    for( auto const & e : dynamic_cast<pml::SignalRoutingParameter const &>( o.data() ) ) { got[ e.output ] = e.input; t += std::to_string( e.input ) + ">" + std::to_string( e.output ) + ","; }
    c.compared(); c.state( t ); for( auto const & e : got ) if( !in.count( e.first ) || !in[ e.first ].count( e.second ) ) c.fail( "unexpected routing from ", e.second, " to ", e.first ); for( auto const & e : in ) if( !got.count( e.first ) ) c.fail( "no routing to ", e.first, ", scene routes ", *e.second.begin() );
  } );
}
static void hoa( Chooser & c, bool small, int steps )
{
  bool const twoD = c.flag( "2D" ), adaptive = c.flag( "adaptive" ); LoudspeakerArray const & a = array( twoD ), & reg = array( false ); std::size_t const R = a.getNumRegularSpeakers(), Q = reg.getNumRegularSpeakers();
  efl::BasicMatrix<float> dec( 4, Q, 4 ); for( std::size_t i = 0; i < 4; ++i ) for( std::size_t k = 0; k < Q; ++k ) dec( i, k ) = 0.1f * (float)( i + 1 ) - 0.07f * (float)( k * k ) * ( i % 2 ? 1.f : -1.f );
  Rig r( c ); { Mute m; r.start( new rcl::HoaAllRadGainCalculator( r.ctx, "p", nullptr, M, reg, a, dec, pml::ListenerPosition(), adaptive ), "objectInput", adaptive ? "listenerInput" : nullptr ); }
  auto & in = dynamic_cast<pml::MatrixParameter<float> &>( dynamic_cast<pml::SharedDataProtocol::OutputBase &>( r.run->flow.externalParameterReceivePort( "gainInput" ) ).data() ); int period = 0; bool first = true;
  auto fill = [&] { ++period; for( std::size_t i = 0; i < R; ++i ) for( std::size_t k = 0; k < M; ++k ) in( i, k ) = (float)period + 0.25f * (float)i - 0.125f * (float)k; };
  history( c, r, small, steps, [&]
  {
    if( first ) { first = false; fill(); return; }
    auto const & out = r.shared<pml::MatrixParameter<float>>( "gainOutput" ); Gains w( R, std::vector<double>( M, 0.0 ) ); for( std::size_t i = 0; i < R; ++i ) for( std::size_t k = 0; k < M; ++k ) w[ i ][ k ] = in( i, k );
    panning::AllRAD ar( reg, a, dec, 1 ); ar.setListenerPosition( r.listener[ 0 ], r.listener[ 1 ], r.listener[ 2 ] ); auto const & dg = ar.decodingGains();
    for( auto const & x : r.scene ) if( x.second.type == T::HoaSource ) { bool ok = x.second.ch.size() <= 4; for( unsigned k : x.second.ch ) ok = ok && k < M; for( std::size_t h = 0; h < x.second.ch.size(); ++h ) if( x.second.ch[ h ] < M ) for( std::size_t i = 0; i < R; ++i ) w[ i ][ x.second.ch[ h ] ] = ok ? dg( h, i ) : std::isfinite( out( i, x.second.ch[ h ] ) ) ? out( i, x.second.ch[ h ] ) : 0; }
    same( c, out, w, "gains" ); fill();
  } );
}
static void cap( Chooser & c, bool small, int steps )
{
  bool const hf = c.flag( "HF output" ), hfMode = c.flag( "HF mode" ); LoudspeakerArray const & a = array( true ); std::size_t const R = a.getNumRegularSpeakers();
  Rig r( c ); { Mute m; r.start( new rcl::CAPGainCalculator( r.ctx, "p", nullptr, M, a, hfMode ? rcl::CAPGainCalculator::PanningMode::HF : rcl::CAPGainCalculator::PanningMode::LF, hf ), "objectVectorInput", "listenerPosition" ); }
  history( c, r, small, steps, [&]
  {
    Gains w( R, std::vector<double>( M, 0.0 ) ), h = w; panning::CAP_VBAP v( a, r.listener[ 0 ], r.listener[ 1 ], r.listener[ 2 ] );
    auto const & gl = r.shared<pml::MatrixParameter<float>>( "gainOutput" );
    for( auto const & x : r.scene )
    {
      Proto const & p = x.second; if( !mono( p ) || p.ch[ 0 ] >= M ) continue; bool const known = p.type == T::PointSource || p.type == T::PointSourceWithDiffuseness || p.type == T::PlaneWave; if( !isPoint( p.type ) && p.type != T::PlaneWave ) continue; std::size_t const k = p.ch[ 0 ];
      if( !known ) { for( std::size_t i = 0; i < R; ++i ) { w[ i ][ k ] = gl( i, k ); if( hf ) h[ i ][ k ] = r.shared<pml::MatrixParameter<float>>( "hfGainOutput" )( i, k ); } continue; } // extended sources: not settled
      bool const plane = p.type == T::PlaneWave; V3 const d = plane ? direction( p ) : p.pos; panning::XYZ src( d[ 0 ], d[ 1 ], d[ 2 ], plane ); double const level = hasDiff( p.type ) ? 1 - p.diff : 1;
      panning::CAP q; q.setLoudspeakerArray( &a ); q.setNumSources( 1 ); q.setListenerPosition( r.listener[ 0 ], r.listener[ 1 ], r.listener[ 2 ] ); q.setListenerAuralAxis( 1, 0, 0 ); if( r.told ) q.setListenerOrientation( 0, 0, 0, false ); if( hfMode ) q.setHFmode(); q.setSourcePositions( &src ); { Mute m; q.calcGains(); }
      for( std::size_t i = 0; i < R; ++i ) w[ i ][ k ] = level * q.getGains()( 0, i );
      std::vector<float> u( R ); v.calculateGainsUnNormalised( d[ 0 ], d[ 1 ], d[ 2 ], u.data(), plane ); std::vector<double> g; for( float y : u ) g.push_back( std::sqrt( std::max( (double)y, 0.0 ) ) ); put( h, k, g, Norm::Energy, level );
    }
    same( c, gl, w, "gains" ); if( hf ) same( c, r.shared<pml::MatrixParameter<float>>( "hfGainOutput" ), h, "high-frequency gains" );
  } );
}
int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary(); Explorer x( argc, argv ); bool const q = x.quick(); int const deep = q ? 2 : 3;
  struct E { char const * n; void ( *f )( Chooser &, bool, int ); }; E const es[] = { { "panning", panner }, { "gain-eq", gainEq }, { "diffusion", diffusion }, { "routing", routing }, { "hoa", hoa }, { "cap", cap } };
  for( auto const & e : es ) { x.add( std::string( e.n ) + "-pairs", [e, deep]( Chooser & c ) { e.f( c, false, deep ); }, 4 ); x.add( std::string( e.n ) + "-configurations", [e, deep]( Chooser & c ) { e.f( c, true, deep ); }, 4 ); }
  x.add( "panning-sources", [q]( Chooser & c ) { sources( c, q ? 3 : 8 ); }, 3 );
  return x.run();
}
