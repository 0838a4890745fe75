//! LIBS: signalflows reverbobject visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_thread -lboost_system -lsndfile
#include "interp.hpp"
#include <libvisr/signal_flow_context.hpp>
#include <libefl/basic_matrix.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/gain_fader.hpp>
#include <librbbl/gain_matrix.hpp>
#include <librcl/add.hpp>
#include <librcl/gain_matrix.hpp>
#include <librcl/gain_vector.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libsignalflows/gain_matrix.hpp>
using namespace visr;
using vx::Chooser;
using Grid = std::vector<std::vector<double>>; // [output][input]
static int const FS = 48000;
// Model: every crosspoint ramps from the gain in effect to the target; pos = samples processed since the last setting.
struct Ramp
{
  Grid start, target; std::size_t pos, len;
  // gain applied to sample number p after the setting
  double at( std::size_t r, std::size_t i, std::size_t p ) const { double w = len == 0 ? 1.0 : std::min( 1.0, double( p + 1 ) / len ); return start[ r ][ i ] + w * ( target[ r ][ i ] - start[ r ][ i ] ); }
  void set( Grid const & v )
  {
    Grid s = start;
    for( std::size_t r = 0; r < s.size(); ++r ) for( std::size_t i = 0; i < s[ r ].size(); ++i ) { double w = len == 0 ? 1.0 : std::min( 1.0, double( pos ) / len ); s[ r ][ i ] = start[ r ][ i ] + w * ( target[ r ][ i ] - start[ r ][ i ] ); }
    start = s; target = v; pos = 0;
  }
  std::string str() const { std::ostringstream o; o << std::min( pos, len ) << '/' << len; for( auto & row : start ) for( double v : row ) o << ' ' << v; o << '|'; for( auto & row : target ) for( double v : row ) o << ' ' << v; return o.str(); }
};
static Grid gains( std::size_t nOut, std::size_t nIn, int variant )
{
  Grid g( nOut, std::vector<double>( nIn ) );
  for( std::size_t r = 0; r < nOut; ++r ) for( std::size_t i = 0; i < nIn; ++i )
  {
    double & v = g[ r ][ i ];
    switch( variant )
    {
    case 0: v = 1.0 + 0.25 * i + 0.5 * r; break;
    case 1: v = ( i + r ) % 2 ? 0.0 : -1.0; break;
    case 2: v = 1.0e-7 * ( 1 + i ) + 0.125 * r; break; // tiny, but far from variants 0 and 3
    case 3: v = i == r ? 1.0 : 0.0; break;             // partly equal to variant 0
    default: v = 0.0;
    }
  }
  return g;
}
template<typename T> static efl::BasicMatrix<T> mat( Grid const & g, std::size_t nIn, std::size_t align = 0 ) { efl::BasicMatrix<T> m( g.size(), nIn, align ); for( std::size_t r = 0; r < g.size(); ++r ) for( std::size_t i = 0; i < nIn; ++i ) m( r, i ) = T( g[ r ][ i ] ); return m; }
static void compare( Chooser & c, Ramp const & m, bool matrix, std::size_t nIn, std::size_t nOut, std::size_t N, long t, int b, std::vector<std::vector<double>> const & out, double tol )
{
  for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s )
  {
    double e = 0; std::size_t const r = matrix ? o : 0;
    for( std::size_t i = matrix ? 0 : o; i < ( matrix ? nIn : o + 1 ); ++i ) e += m.at( r, i, m.pos + s ) * sample( i, t + long( s ) );
    if( !( std::abs( e - out[ o ][ s ] ) <= tol ) ) c.fail( "block ", b, ", output ", o, ", sample ", s, ": ", out[ o ][ s ], ", expected ", e );
    c.compared();
  }
}
template<typename T> static void fader( Chooser & c, std::size_t maxN, std::size_t maxSteps )
{
  std::size_t const N = 1 + c.choose( int( maxN ), "block" ), L = c.choose( int( maxSteps ) + 1, "steps" );
  bool const aligned = c.flag( "aligned" ); std::size_t const al = aligned ? 64 / sizeof( T ) : 0;
  if( aligned && N % al && L > N ) { c.note( "block not a multiple of the alignment" ); }
  c.note( sizeof( T ) == 4 ? "float" : "double", " fader, block ", N, ", ", L, " steps, alignment ", al );
  rbbl::GainFader<T> f( N, L, al );
  std::size_t const periods = ( L + N - 1 ) / N;
  if( f.interpolationSamples() != L || f.interpolationPeriods() != periods ) c.fail( "reports ", f.interpolationSamples(), " samples, ", f.interpolationPeriods(), " periods" );
  std::vector<std::pair<double, double>> const ends{ { 0, 1 }, { 1, 0 }, { -2, 0.5 }, { 3, 3 }, { 1e-6, 1 } };
  efl::BasicVector<T> in( N, al ), out( N, al ), acc( N, al );
  for( auto const & e : ends ) for( std::size_t k = 0; k <= periods + 2; ++k )
  {
    for( std::size_t s = 0; s < N; ++s ) { in[ s ] = T( sample( 0, long( k * N + s ) ) ); out[ s ] = T( -77 ); acc[ s ] = T( 5 + s ); }
    f.scale( in.data(), out.data(), T( e.first ), T( e.second ), k ); f.scaleAndAccumulate( in.data(), acc.data(), T( e.first ), T( e.second ), k );
    for( std::size_t s = 0; s < N; ++s )
    {
      double const w = L == 0 ? 1 : std::min( 1.0, double( k * N + s + 1 ) / L ), x = ( e.first + w * ( e.second - e.first ) ) * in[ s ];
      if( !( std::abs( x - out[ s ] ) <= 1e-3 ) ) c.fail( "gain ", e.first, " to ", e.second, ", block ", k, ", sample ", s, ": ", out[ s ], ", expected ", x );
      if( !( std::abs( x + 5 + s - acc[ s ] ) <= 1e-3 ) ) c.fail( "accumulating, gain ", e.first, " to ", e.second, ", block ", k, ", sample ", s, ": ", acc[ s ], ", expected ", x + 5 + s );
      c.compared( 2 );
    }
    c.state( vx::mix( vx::mix( N, L ), k ) );
  }
}
template<typename T> static void matrixHistory( Chooser & c, std::size_t nIn, std::size_t nOut, std::vector<std::size_t> const & Ns, std::vector<int> const & stepsTenths, std::vector<std::size_t> const & aligns, int depth, int variants )
{
  std::size_t const N = c.pick( Ns, "block" ), al = c.pick( aligns, "alignment" );
  std::size_t const L = std::size_t( c.pick( stepsTenths, "steps" ) ) * N / 10;
  bool const viaMatrix = c.flag( "initial matrix" );
  Grid const g0 = viaMatrix ? gains( nOut, nIn, 0 ) : Grid( nOut, std::vector<double>( nIn, 0.5 ) );
  c.note( sizeof( T ) == 4 ? "float" : "double", " gain matrix ", nIn, "->", nOut, ", block ", N, ", transition ", L, ", alignment ", al );
  std::unique_ptr<rbbl::GainMatrix<T>> dut( viaMatrix ? new rbbl::GainMatrix<T>( nIn, nOut, N, L, mat<T>( g0, nIn, al ), al ) : new rbbl::GainMatrix<T>( nIn, nOut, N, L, T( 0.5 ), al ) );
  Ramp m{ g0, g0, L, L };
  long t = 0;
  efl::BasicMatrix<T> in( std::max<std::size_t>( nIn, 1 ), N, al ), out( std::max<std::size_t>( nOut, 1 ), N, al );
  std::vector<T const *> ip( nIn ); std::vector<T *> op( nOut );
  for( std::size_t i = 0; i < nIn; ++i ) ip[ i ] = in.row( i );
  for( std::size_t o = 0; o < nOut; ++o ) op[ o ] = out.row( o );
  int const tail = int( ( L + N - 1 ) / N ) + 1;
  auto doProcess = [&]( int b, int withGains )
  {
    for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) in( i, s ) = T( sample( i, t + long( s ) ) );
    out.fillValue( T( -77 ) );
    if( withGains >= 0 ) { Grid g = gains( nOut, nIn, withGains ); dut->process( ip.data(), op.data(), mat<T>( g, nIn, al ) ); m.set( g ); }
    else dut->process( ip.data(), op.data() );
    std::vector<std::vector<double>> res( nOut, std::vector<double>( N ) );
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s ) res[ o ][ s ] = out( o, s );
    compare( c, m, true, nIn, nOut, N, t, b, res, sizeof( T ) == 4 ? 2e-3 : 1e-9 );
    t += N; m.pos += N; m.pos = std::min( m.pos, L );
  };
  int const nEv = 2 + 2 * variants;
  for( int b = 0; b < depth; ++b )
  {
    int const ev = c.choose( nEv, "event" );
    if( ev == 0 ) { c.note( b, ": process" ); doProcess( b, -1 ); }
    else if( ev == 1 )
    {
      c.note( b, ": wrong size" );
      efl::BasicMatrix<T> w1( nOut + 1, nIn, al ), w2( nOut, nIn + 1, al );
      if( !vx::throws( [&]{ dut->setNewGains( w1 ); } ) || !vx::throws( [&]{ dut->setNewGains( w2 ); } ) ) c.fail( "gains of wrong size accepted" );
      if( !vx::throws( [&]{ dut->process( ip.data(), op.data(), w1 ); } ) || !vx::throws( [&]{ dut->process( ip.data(), op.data(), w2 ); } ) ) c.fail( "gains of wrong size accepted when processing" );
    }
    else if( ev < 2 + variants ) { c.note( b, ": set ", ev - 2 ); Grid g = gains( nOut, nIn, ev - 2 ); dut->setNewGains( mat<T>( g, nIn, al ) ); m.set( g ); }
    else { c.note( b, ": process with ", ev - 2 - variants ); doProcess( b, ev - 2 - variants ); }
    c.state( vx::hashStr( m.str() ) );
  }
  for( int b = 0; b < tail; ++b ) doProcess( depth + b, -1 );
}
// The gain matrix as a signal flow, on its own or within another one, with constant gains.
static void signalFlow( Chooser & c )
{
  std::size_t const nIn = (std::size_t)c.choose( 4, "inputs" ), nOut = (std::size_t)c.choose( 4, "outputs" ), N = c.pick( std::vector<std::size_t>{ 1, 4, 5, 16 }, "period" ), L = c.pick( std::vector<std::size_t>{ 0, 4, 40 }, "transition" ); Grid const g = gains( nOut, nIn, 1 ); SignalFlowContext const ctx( N, FS );
  signalflows::GainMatrix comp( ctx, "matrix", nullptr, nIn, nOut, mat<SampleType>( g, nIn, cVectorAlignmentSamples ), L ); rrl::AudioSignalFlow flow( comp ); Ramp m{ g, g, std::max<std::size_t>( L, 1 ), std::max<std::size_t>( L, 1 ) }; long t = 0;
  if( nIn && nOut && std::string( comp.name() ) != "matrix" ) c.fail( "the name of the flow is ", comp.name() );
  for( int b = 0; b < 3; ++b )
  {
    std::vector<float> in( nIn * N + 1 ), out( nOut * N + 1, -77.f ); for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) in[ i * N + s ] = float( sample( i, t + long( s ) ) );
    flow.process( in.data(), N, 1, out.data(), N, 1 ); std::vector<std::vector<double>> res( nOut, std::vector<double>( N ) ); for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s ) res[ o ][ s ] = out[ o * N + s ];
    compare( c, m, true, nIn, nOut, N, t, b, res, 3e-3 ); t += (long)N; c.state( vx::mix( nIn * 4 + nOut, N ) );
  }
}
static void component( Chooser & c, bool matrix, std::size_t nIn, std::size_t nOut, std::vector<std::size_t> const & Ns, std::vector<int> const & stepsTenths, int depth, int variants )
{
  vx::Mute mute;
  static bool once = ( pml::initialiseParameterLibrary(), true ); (void)once;
  std::size_t const N = c.pick( Ns, "period" ), L = std::size_t( c.pick( stepsTenths, "steps" ) ) * N / 10;
  bool const control = c.flag( "control input" ), uniform = c.flag( "uniform initial gain" );
  std::size_t const rows = matrix ? nOut : 1;
  Grid const g0 = uniform ? Grid( rows, std::vector<double>( nIn, 0.75 ) ) : gains( rows, nIn, 0 );
  SignalFlowContext const ctx( N, FS );
  std::unique_ptr<Component> comp;
  if( matrix )
  {
    std::unique_ptr<rcl::GainMatrix> d( new rcl::GainMatrix( ctx, "dut" ) );
    if( uniform ) d->setup( nIn, nOut, L, 0.75f, control ); else d->setup( nIn, nOut, L, mat<SampleType>( g0, nIn, cVectorAlignmentSamples ), control );
    comp = std::move( d );
  }
  else
  {
    std::unique_ptr<rcl::GainVector> d( new rcl::GainVector( ctx, "dut" ) );
    if( uniform ) d->setup( nIn, L, control, 0.75f );
    else { efl::BasicVector<SampleType> v( nIn, cVectorAlignmentSamples ); for( std::size_t i = 0; i < nIn; ++i ) v[ i ] = SampleType( g0[ 0 ][ i ] ); d->setup( nIn, L, control, v ); }
    comp = std::move( d );
  }
  c.note( matrix ? "matrix component " : "vector component ", nIn, "->", nOut, ", period ", N, ", transition ", L, control ? ", controlled" : "" );
  rrl::AudioSignalFlow flow( *comp );
  ParameterPortBase * dummy = nullptr; (void)dummy;
  Ramp m{ g0, g0, L, L };
  pml::DoubleBufferingProtocol::OutputBase * dp = nullptr; pml::SharedDataProtocol::OutputBase * sp = nullptr;
  if( control )
  {
    auto & p = flow.externalParameterReceivePort( "gainInput" );
    dp = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase *>( &p ); sp = dynamic_cast<pml::SharedDataProtocol::OutputBase *>( &p );
    if( matrix != ( sp != nullptr ) || matrix == ( dp != nullptr ) ) c.fail( "unexpected protocol of the gain input" );
  }
  Grid current( rows, std::vector<double>( nIn, 0.0 ) ); // contents of the shared control parameter
  bool pending = false;
  // The host of a controlled matrix provides the initial gains: the parameter itself starts at zero.
  auto write = [&]( Grid const & g )
  {
    if( matrix ) { auto & p = dynamic_cast<pml::MatrixParameter<SampleType> &>( sp->data() ); for( std::size_t r = 0; r < rows; ++r ) for( std::size_t i = 0; i < nIn; ++i ) p( r, i ) = SampleType( g[ r ][ i ] ); }
    else { auto & p = dynamic_cast<pml::VectorParameter<SampleType> &>( dp->data() ); for( std::size_t i = 0; i < nIn; ++i ) p[ i ] = SampleType( g[ 0 ][ i ] ); dp->swapBuffers(); }
    current = g; pending = true;
  };
  int const tail = int( ( L + N - 1 ) / N ) + 1; long t = 0;
  for( int b = 0; b < depth + tail; ++b )
  {
    // 0: nothing; 1..variants: set; then: two settings before the block
    int const ev = b < depth && control ? c.choose( 2 + variants, "event" ) : 0;
    if( ev >= 1 && ev <= variants ) write( gains( rows, nIn, ev - 1 ) );
    else if( ev == variants + 1 ) { write( gains( rows, nIn, 1 ) ); write( gains( rows, nIn, 0 ) ); }
    if( ev ) c.note( "block ", b, ": event ", ev );
    if( control && ( pending || matrix ) ) m.set( current ); // a controlled matrix takes the value of the control parameter in every period
    pending = false;
    std::vector<float> in( nIn * N + 1 ), out( nOut * N + 1, -77.f );
    for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) in[ i * N + s ] = float( sample( i, t + long( s ) ) );
    flow.process( in.data(), N, 1, out.data(), N, 1 );
    std::vector<std::vector<double>> res( nOut, std::vector<double>( N ) );
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s ) res[ o ][ s ] = out[ o * N + s ];
    compare( c, m, matrix, nIn, nOut, N, t, b, res, 3e-3 );
    t += N; m.pos = std::min( m.pos + N, L );
    c.state( vx::hashStr( m.str() ) );
  }
}
static void adder( Chooser & c, int maxInputs, int maxWidth )
{
  vx::Mute mute;
  std::size_t const N = c.pick( std::vector<std::size_t>{ 1, 3, 4, 8, 16, 17 }, "period" ), k = c.choose( maxInputs + 1, "inputs" ), w = c.choose( maxWidth + 1, "width" );
  SignalFlowContext const ctx( N, FS ); rcl::Add a( ctx, "add", nullptr, w, k ); rrl::AudioSignalFlow flow( a );
  c.note( "sum of ", k, " inputs of width ", w, ", period ", N );
  // external input channels follow the order of the input ports
  for( int b = 0; b < 3; ++b )
  {
    std::vector<float> in( k * w * N + 1 ), out( w * N + 1, -77.f );
    for( std::size_t i = 0; i < k * w; ++i ) for( std::size_t s = 0; s < N; ++s ) in[ i * N + s ] = float( sample( i, long( b * N + s ) ) );
    flow.process( in.data(), N, 1, out.data(), N, 1 );
    for( std::size_t o = 0; o < w; ++o ) for( std::size_t s = 0; s < N; ++s ) { double e = 0; for( std::size_t i = 0; i < k; ++i ) e += sample( i * w + o, long( b * N + s ) ); if( e != out[ o * N + s ] ) c.fail( "block ", b, ", channel ", o, ", sample ", s, ": ", out[ o * N + s ], ", expected ", e ); c.compared(); }
    c.state( vx::mix( vx::mix( N, k ), w * 4 + b ) );
  }
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  std::vector<int> const st{ 0, 7, 10, 15, 20, 30 };
  x.add( "fader float", [=]( Chooser & c ) { fader<float>( c, q ? 20 : 40, q ? 50 : 130 ); }, 2 );
  x.add( "fader double", [=]( Chooser & c ) { fader<double>( c, q ? 20 : 40, q ? 50 : 130 ); }, 2 );
  x.add( "gain matrix 1x1", [=]( Chooser & c ) { matrixHistory<float>( c, 1, 1, { 4 }, st, { 0 }, q ? 4 : 5, 4 ); }, 5 );
  x.add( "gain matrix 2x2", [=]( Chooser & c ) { matrixHistory<float>( c, 2, 2, { 1, 8, 10 }, st, { 0, 16 }, q ? 3 : 4, 4 ); }, 5 );
  x.add( "gain matrix 2x2 double", [=]( Chooser & c ) { matrixHistory<double>( c, 2, 2, { 3, 8 }, st, { 0, 8 }, q ? 3 : 4, 4 ); }, 5 );
  x.add( "gain matrix 3x1", [=]( Chooser & c ) { matrixHistory<float>( c, 3, 1, { 5, 16 }, { 10, 25 }, { 0, 16 }, q ? 3 : 4, 3 ); }, 5 );
  x.add( "gain matrix 1x3", [=]( Chooser & c ) { matrixHistory<double>( c, 1, 3, { 5, 16 }, { 10, 25 }, { 0, 8 }, q ? 3 : 4, 3 ); }, 5 );
  x.add( "gain matrix, no inputs or outputs", [=]( Chooser & c ) { bool const f = c.flag( "no inputs" ); matrixHistory<float>( c, f ? 0 : 2, f ? 2 : 0, { 4 }, { 0, 20 }, { 0 }, 2, 2 ); }, 3 );
  x.add( "vector component", [=]( Chooser & c ) { component( c, false, 2, 2, { 1, 3, 4, 8, 16 }, st, q ? 3 : 4, 4 ); }, 5 );
  x.add( "vector component, long histories", [=]( Chooser & c ) { component( c, false, 1, 1, { 4 }, { 20, 40 }, q ? 5 : 6, 4 ); }, 5 );
  x.add( "matrix component", [=]( Chooser & c ) { component( c, true, 2, 2, { 1, 3, 4, 8, 16 }, st, q ? 3 : 4, 4 ); }, 5 );
  x.add( "matrix component 3x1", [=]( Chooser & c ) { component( c, true, 3, 1, { 5, 16 }, { 10, 30 }, q ? 3 : 4, 4 ); }, 5 );
  x.add( "matrix component 1x3", [=]( Chooser & c ) { component( c, true, 1, 3, { 4, 16 }, { 0, 20 }, q ? 3 : 4, 4 ); }, 5 );
  x.add( "matrix component, empty", [=]( Chooser & c ) { bool const f = c.flag( "no inputs" ); component( c, true, f ? 0 : 2, f ? 2 : 0, { 4 }, { 0, 20 }, 2, 2 ); }, 4 );
  x.add( "matrix flow", []( Chooser & c ) { signalFlow( c ); }, 2 );
  x.add( "sum", [=]( Chooser & c ) { adder( c, q ? 5 : 8, q ? 4 : 7 ); }, 2 );
  return x.run();
}
