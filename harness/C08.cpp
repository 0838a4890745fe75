//! LIBS: signalflows reverbobject visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_thread -lboost_system -lsndfile
#include "interp.hpp"
#include <libvisr/signal_flow_context.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librcl/delay_matrix.hpp>
#include <librcl/delay_vector.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libsignalflows/delay_vector.hpp>
using namespace visr;
using vx::Chooser;
static int FS = 64; // exact conversion between samples and seconds
using DB = pml::DoubleBufferingProtocol;
using Grid = std::vector<std::vector<double>>; // [output][input]; a vector component has one row

struct Ramp // model of one smoothed parameter set
{
  Grid start, target; std::size_t pos, len;
  double at( std::size_t r, std::size_t i, std::size_t p ) const { double w = double( std::min( p, len ) ) / len; return start[ r ][ i ] * ( 1 - w ) + target[ r ][ i ] * w; }
  void set( Grid const & v ) { Grid s = start; for( std::size_t r = 0; r < s.size(); ++r ) for( std::size_t i = 0; i < s[ r ].size(); ++i ) s[ r ][ i ] = at( r, i, pos ); start = s; target = v; pos = 0; }
};
// Uniform access to the two components.
struct Dut
{
  virtual ~Dut() {}
  virtual Component & comp() = 0;
  virtual void delay( Grid const & g ) = 0; virtual void gain( Grid const & g ) = 0; virtual void both( Grid const & d, Grid const & g ) = 0;
  static efl::BasicVector<SampleType> vec( Grid const & g ) { efl::BasicVector<SampleType> v( g[ 0 ].size(), cVectorAlignmentSamples ); for( std::size_t i = 0; i < v.size(); ++i ) v[ i ] = SampleType( g[ 0 ][ i ] ); return v; }
  static efl::BasicMatrix<SampleType> mat( Grid const & g ) { efl::BasicMatrix<SampleType> m( g.size(), g[ 0 ].size(), cVectorAlignmentSamples ); for( std::size_t r = 0; r < g.size(); ++r ) for( std::size_t i = 0; i < g[ 0 ].size(); ++i ) m( r, i ) = SampleType( g[ r ][ i ] ); return m; }
};
struct VecDut : Dut
{
  rcl::DelayVector d; VecDut( SignalFlowContext const & c ) : d( c, "dut" ) {}
  Component & comp() override { return d; }
  void delay( Grid const & g ) override { d.setDelay( vec( g ) ); }
  void gain( Grid const & g ) override { d.setGain( vec( g ) ); }
  void both( Grid const & a, Grid const & b ) override { d.setDelayAndGain( vec( a ), vec( b ) ); }
};
struct MatDut : Dut
{
  std::unique_ptr<rcl::DelayMatrix> d;
  Component & comp() override { return *d; }
  void delay( Grid const & g ) override { d->setDelay( mat( g ) ); }
  void gain( Grid const & g ) override { d->setGain( mat( g ) ); }
  void both( Grid const & a, Grid const & b ) override { d->setDelayAndGain( mat( a ), mat( b ) ); }
};
struct FlowDut : Dut
{
  signalflows::DelayVector d; FlowDut( SignalFlowContext const & c, std::size_t n, std::size_t steps, char const * method ) : d( c, "dut", nullptr, n, steps, method ) {}
  Component & comp() override { return d; }
  void delay( Grid const & ) override {} void gain( Grid const & ) override {} void both( Grid const &, Grid const & ) override {}
};
struct Conf { bool matrix; std::size_t nIn, nOut; };
// Settings are built from a per-variant base value, differing between crosspoints.
static Grid delays( Conf const & k, int variant, double maxDelay )
{
  Grid g( k.matrix ? k.nOut : 1, std::vector<double>( k.nIn ) );
  for( std::size_t r = 0; r < g.size(); ++r ) for( std::size_t i = 0; i < k.nIn; ++i )
  { double v = variant == 0 ? 1.0 + i + 2 * r : variant == 1 ? maxDelay - 0.5 * i - r : 2.5 + 0.25 * r; g[ r ][ i ] = v / FS; }
  return g;
}
static Grid gainsOf( Conf const & k, int variant )
{
  Grid g( k.matrix ? k.nOut : 1, std::vector<double>( k.nIn ) );
  for( std::size_t r = 0; r < g.size(); ++r ) for( std::size_t i = 0; i < k.nIn; ++i )
    g[ r ][ i ] = variant == 0 ? 1.0 + 0.25 * i + 0.5 * r : variant == 1 ? ( i + r ) % 2 ? 0.0 : -1.0 : 0.125;
  return g;
}
static void run( Chooser & c, Conf k, std::vector<int> const & interpBlocks, std::vector<int> const & orders, std::vector<std::size_t> const & periods, int nBlocks, bool rich )
{
  vx::Mute mute;
  static bool once = ( pml::initialiseParameterLibrary(), true ); (void)once;
  std::size_t const N = c.pick( periods, "period" ), steps = c.pick( interpBlocks, "transition blocks" ); int const order = c.pick( orders, "order" );
  int const ports = c.choose( k.matrix ? 4 : 5, "control ports" ), ctrl = std::min( ports, 3 ); bool const asFlow = ports == 4; FS = asFlow ? 1024 : 64; // 0 none 1 delay 2 gain 3 all 4 the delay vector as a signal flow
  using Policy = rbbl::MultichannelDelayLine<SampleType>::MethodDelayPolicy;
  Policy const pol = asFlow || order % 2 ? Policy::Limit : order ? Policy::Reject : Policy::Add;
  bool const uniformInit = asFlow ? true : rich ? c.flag( "uniform initial values" ) : ( ctrl % 2 == 0 );
  double const maxD = 6; // the signal flow has a maximum of 20 ms
  SignalFlowContext const ctx( N, FS );
  std::unique_ptr<Dut> dut;
  Grid d0 = delays( k, 0, maxD ), g0 = gainsOf( k, 0 );
  if( pol == Policy::Reject ) for( auto & r : d0 ) for( auto & v : r ) v += 0.5 / FS;
  if( uniformInit ) { for( auto & r : d0 ) for( auto & v : r ) v = 3.0 / FS; for( auto & r : g0 ) for( auto & v : r ) v = 0.75; }
  if( asFlow ) { d0 = Grid( 1, std::vector<double>( k.nIn, 0.0 ) ); g0 = Grid( 1, std::vector<double>( k.nIn, 1.0 ) ); }
  std::string const method = order ? "lagrangeOrder" + std::to_string( order ) : "nearestSample";
  if( asFlow ) dut.reset( new FlowDut( ctx, k.nIn, steps * N, method.c_str() ) );
  else if( k.matrix )
  {
    using CP = rcl::DelayMatrix::ControlPortConfig; CP const cp[] = { CP::None, CP::Delay, CP::Gain, CP::All };
    std::unique_ptr<MatDut> m( new MatDut );
    bool const viaSetup = ctrl == 1 || ctrl == 2;
    if( viaSetup )
    {
      m->d.reset( new rcl::DelayMatrix( ctx, "dut" ) );
      if( uniformInit ) m->d->setup( k.nIn, k.nOut, steps * N, SampleType( maxD / FS ), method.c_str(), pol, cp[ ctrl ], SampleType( 3.0 / FS ), 0.75f );
      else m->d->setup( k.nIn, k.nOut, steps * N, SampleType( maxD / FS ), method.c_str(), pol, cp[ ctrl ], Dut::mat( d0 ), Dut::mat( g0 ) );
    }
    else if( uniformInit ) m->d.reset( new rcl::DelayMatrix( ctx, "dut", nullptr, k.nIn, k.nOut, steps * N, SampleType( maxD / FS ), method.c_str(), pol, cp[ ctrl ], SampleType( 3.0 / FS ), 0.75f ) );
    else m->d.reset( new rcl::DelayMatrix( ctx, "dut", nullptr, k.nIn, k.nOut, steps * N, SampleType( maxD / FS ), method.c_str(), pol, cp[ ctrl ], Dut::mat( d0 ), Dut::mat( g0 ) ) );
    dut = std::move( m );
  }
  else
  {
    using CP = rcl::DelayVector::ControlPortConfig; CP const cp[] = { CP::None, CP::Delay, CP::Gain, CP::All };
    std::unique_ptr<VecDut> v( new VecDut( ctx ) );
    if( uniformInit ) v->d.setup( k.nIn, steps * N, SampleType( maxD / FS ), method.c_str(), pol, cp[ ctrl ], SampleType( 3.0 / FS ), 0.75f );
    else v->d.setup( k.nIn, steps * N, SampleType( maxD / FS ), method.c_str(), pol, cp[ ctrl ], Dut::vec( d0 ), Dut::vec( g0 ) );
    dut = std::move( v );
  }
  c.note( k.matrix ? "delay matrix " : "delay vector ", k.nIn, "->", k.nOut, ", period ", N, ", transition of ", steps, " periods, ", method, ", control ports ", ctrl );
  if( asFlow && std::string( dut->comp().name() ) != "dut" ) c.fail( "the signal flow is named '", dut->comp().name(), "'" );
  rrl::AudioSignalFlow flow( dut->comp() );
  DB::OutputBase * dp = ctrl & 1 ? dynamic_cast<DB::OutputBase *>( &flow.externalParameterReceivePort( asFlow ? "globalDelayInput" : "delayInput" ) ) : nullptr;
  DB::OutputBase * gp = ctrl & 2 ? dynamic_cast<DB::OutputBase *>( &flow.externalParameterReceivePort( asFlow ? "globalGainInput" : "gainInput" ) ) : nullptr;
  auto send = [&]( DB::OutputBase * p, Grid const & g )
  {
    if( k.matrix ) { auto & m = dynamic_cast<pml::MatrixParameter<SampleType> &>( p->data() ); for( std::size_t r = 0; r < g.size(); ++r ) for( std::size_t i = 0; i < k.nIn; ++i ) m( r, i ) = SampleType( g[ r ][ i ] ); }
    else { auto & v = dynamic_cast<pml::VectorParameter<SampleType> &>( p->data() ); for( std::size_t i = 0; i < k.nIn; ++i ) v[ i ] = SampleType( g[ 0 ][ i ] ); }
    p->swapBuffers();
  };
  Ramp rd{ d0, d0, steps, steps }, rg{ g0, g0, steps, steps };
  long t = 0; double const md = 0.5 * order;
  int const nDelays = 3, nGains = 3;
  for( int b = 0; b < nBlocks + int( steps ) + 1; ++b )
  {
    // none | delay(3) | gain(3) | both | two delays | two gains | wrong size
    int const ev = b < nBlocks ? c.choose( asFlow ? 10 : 11, "event" ) : 0;
    auto setD = [&]( int v ) { Grid g = delays( k, v, maxD ); if( pol == Policy::Reject ) for( auto & r : g ) for( auto & x : r ) x = std::max( x, md / FS ); if( dp && ev != 10 ) send( dp, g ); else { dut->delay( g ); rd.set( g ); } return g; };
    auto setG = [&]( int v ) { Grid g = gainsOf( k, v ); if( gp && ev != 10 ) send( gp, g ); else { dut->gain( g ); rg.set( g ); } return g; };
    Grid pendD, pendG;
    auto doD = [&]( int v ) { Grid g = setD( v ); if( dp ) pendD = g; };
    auto doG = [&]( int v ) { Grid g = setG( v ); if( gp ) pendG = g; };
    if( ev >= 1 && ev <= nDelays ) doD( ev - 1 );
    else if( ev >= 4 && ev < 4 + nGains ) doG( ev - 4 );
    else if( ev == 7 )
    {
      if( !dp && !gp ) { Grid a = delays( k, 1, maxD ), g = gainsOf( k, 1 ); if( pol == Policy::Reject ) for( auto & r : a ) for( auto & x : r ) x = std::max( x, md / FS ); dut->both( a, g ); rd.set( a ); rg.set( g ); }
      else { doD( 1 ); doG( 1 ); }
    }
    else if( ev == 8 ) { doD( 1 ); doD( 2 ); }
    else if( ev == 9 ) { doG( 1 ); doG( 2 ); }
    else if( ev == 10 )
    {
      Conf w = k; if( k.matrix && b % 2 ) w.nOut++; else w.nIn++;
      Grid a = delays( w, 1, maxD ), g = gainsOf( w, 1 );
      if( !vx::throws( [&]{ dut->delay( a ); } ) || !vx::throws( [&]{ dut->gain( g ); } ) ) c.fail( "settings of wrong size accepted" );
    }
    if( ev ) c.note( "block ", b, ": event ", ev );
    if( !pendD.empty() ) rd.set( pendD );
    if( !pendG.empty() ) rg.set( pendG );
    std::vector<float> in( k.nIn * N ), out( k.nOut * N, -7.f );
    for( std::size_t i = 0; i < k.nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) in[ i * N + s ] = float( sample( i, t + long( s ) ) );
    flow.process( in.data(), N, 1, out.data(), N, 1 ); t += N;
    auto eff = [&]( double sec ) { double s = sec * FS; return pol == Policy::Add ? s + md : std::max( s, md ); };
    std::size_t const rows = rd.start.size();
    for( std::size_t o = 0; o < k.nOut; ++o ) for( std::size_t s = 0; s < N; ++s )
    {
      double const w = double( s + 1 ) / N; double got = out[ o * N + s ];
      std::size_t const r = k.matrix ? o : 0;
      // lowest and highest admissible value: at switching points between node sets each input may contribute one of two values
      std::vector<double> sums{ 0.0 }; double shown = 0;
      for( std::size_t i = k.matrix ? 0 : o; i < ( k.matrix ? k.nIn : o + 1 ); ++i )
      {
        double const da = eff( rd.at( r, i, rd.pos ) ), db = eff( rd.at( r, i, rd.pos + 1 ) ), ga = rg.at( r, i, rg.pos ), gb = rg.at( r, i, rg.pos + 1 );
        double const x = -double( N - 1 - s ) - ( da + ( db - da ) * w ), g = ga + ( gb - ga ) * w, shift = x - 0.5 * order;
        std::vector<double> next;
        for( int alt = -1; alt <= 1; ++alt )
        {
          double const bb = std::floor( shift + 0.5 ) + alt, mu = shift - bb; if( std::abs( mu ) > 0.5 + 1e-3 ) continue;
          double v = 0; for( int j = 0; j <= order; ++j ) v += lagrange( order, j, mu ) * sample( i, t - 1 + long( bb ) + j );
          for( double q : sums ) next.push_back( q + g * v );
        }
        sums = next;
      }
      bool ok = false; for( double q : sums ) { ok = ok || std::abs( q - got ) <= 2e-2; shown = q; }
      if( !ok ) c.fail( "block ", b, ", output ", o, ", sample ", s, ": ", got, ", expected ", shown );
      c.compared();
    }
    (void)rows;
    rd.pos = std::min( rd.pos + 1, steps ); rg.pos = std::min( rg.pos + 1, steps );
    std::ostringstream st; st << k.matrix << N << steps << order << ctrl; for( auto * q : { &rd, &rg } ) { st << '|' << q->pos; for( auto & row : q->start ) for( double v : row ) st << ' ' << v; for( auto & row : q->target ) for( double v : row ) st << ' ' << v; }
    c.state( st.str() );
  }
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  Conf v1{ false, 1, 1 }, v2{ false, 2, 2 }, m22{ true, 2, 2 }, m13{ true, 1, 3 }, m31{ true, 3, 1 };
  x.add( "delay vector", [=]( Chooser & c ) { run( c, v2, { 1, 2, 3 }, { 0, 1 }, { 4 }, q ? 3 : 4, false ); }, 6 );
  x.add( "delay vector, configurations", [=]( Chooser & c ) { run( c, v1, { 1, 2, 4 }, { 0, 1, 2, 3, 5 }, { 1, 3, 8 }, q ? 1 : 2, true ); }, 5 );
  x.add( "delay matrix", [=]( Chooser & c ) { run( c, m22, { 1, 2, 3 }, { 0, 1 }, { 4 }, q ? 3 : 4, false ); }, 6 );
  x.add( "delay matrix 1x3", [=]( Chooser & c ) { run( c, m13, { 1, 3 }, { 0, 1, 3 }, { 1, 8 }, q ? 2 : 3, true ); }, 6 );
  x.add( "delay matrix 3x1", [=]( Chooser & c ) { run( c, m31, { 2 }, { 0, 2 }, { 1, 8 }, q ? 2 : 3, true ); }, 6 );
  x.add( "delay vector, long histories", [=]( Chooser & c ) { run( c, v1, { 3 }, { 0 }, { 4 }, q ? 4 : 5, false ); }, 6 );
  return x.run();
}
