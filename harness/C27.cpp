//! LIBS: visr rrl rbbl efl pml objectmodel panning kissfft
//! LINK: -lboost_filesystem -lboost_system -lsndfile
#include "explore.hpp"
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <librrl/flexible_buffer_wrapper.hpp>
using namespace visr;
using vx::Chooser;
static const float GUARD = -99999.f;
static float sample( std::size_t ch, std::size_t t ) { return float( 1 + 1000 * ch + t ); }
static float renderer( std::size_t out, std::size_t nIn, std::vector<float> const & in, std::size_t t ) { return nIn ? in[ out % nIn ] * 2 + float( 100000 * out ) : float( 100000 * out + t + 1 ); }

// Renders each sample as a function of the sample and of its position, in blocks of the period.
class Probe : public AtomicComponent
{
public:
  Probe( SignalFlowContext const & c, std::size_t nIn, std::size_t nOut ) : AtomicComponent( c, "probe", nullptr ), mIn( "in", *this, nIn ), mOut( "out", *this, nOut ) {}
  void process() override
  {
    for( std::size_t k = 0; k < period(); ++k, ++t )
    {
      std::vector<float> x; for( std::size_t i = 0; i < mIn.width(); ++i ) x.push_back( mIn[ i ][ k ] );
      seen.push_back( x );
      for( std::size_t o = 0; o < mOut.width(); ++o ) mOut[ o ][ k ] = renderer( o, mIn.width(), x, t );
    }
    ++calls;
  }
  std::vector<std::vector<float>> seen; std::size_t t = 0, calls = 0;
private:
  AudioInput mIn; AudioOutput mOut;
};
static void run( Chooser & c, std::size_t P, int nBlocks, int maxSize, std::vector<std::pair<int,int>> const & widths, int variants )
{
  auto w = c.pick( widths, "channels" ); std::size_t nIn = w.first, nOut = w.second;
  int variant = c.choose( variants, "calling convention" );
  SignalFlowContext ctx( P, 48000 ); Probe probe( ctx, nIn, nOut ); rrl::AudioSignalFlow flow( probe ); rrl::FlexibleBufferWrapper wrap( flow );
  c.note( "rendering block ", P, ", ", nIn, " inputs, ", nOut, " outputs, calling convention ", variant );
  std::size_t t = 0;
  for( int b = 0; b < nBlocks; ++b )
  {
    std::size_t n = c.choose( maxSize + 1, "host block size" );
    c.note( "host block of ", n );
    std::size_t is = 1, os = 1, ics = n + 2, ocs = n + 3;
    switch( variant )
    {
    case 2: is = nIn + 1; ics = 1; os = nOut + 2; ocs = 1; break;               // interleaved
    case 3: is = 2; ics = 2 * n + 1; os = 1; break;                             // strided input, planar output
    case 4: os = 3; ocs = 3 * n + 2; break;                                     // planar input, strided output
    default: break;
    }
    std::vector<float> ib( ics * nIn + is * n + 4, GUARD ), ob( ocs * nOut + os * n + 4, GUARD ), ref;
    for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t k = 0; k < n; ++k ) ib[ i * ics + k * is ] = sample( i, t + k );
    ref = ob;
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t k = 0; k < n; ++k )
    {
      float v = 0;
      if( t + k >= P ) { std::vector<float> x; for( std::size_t i = 0; i < nIn; ++i ) x.push_back( sample( i, t + k - P ) ); v = renderer( o, nIn, x, t + k - P ); }
      ref[ o * ocs + k * os ] = v;
    }
    auto ibc = ib;
    if( variant == 0 )
    {
      std::vector<float const *> ip; std::vector<float *> op;
      for( std::size_t i = 0; i < nIn; ++i ) ip.push_back( &ib[ i * ics ] );
      for( std::size_t i = 0; i < nOut; ++i ) op.push_back( &ob[ i * ocs ] );
      wrap.process( ip.data(), op.data(), n );
    }
    else wrap.process( ib.data(), ics, is, ob.data(), ocs, os, n );
    t += n;
    if( ib != ibc ) c.fail( "host input modified" );
    for( std::size_t i = 0; i < ob.size(); ++i ) if( ob[ i ] != ref[ i ] ) c.fail( "after ", t - n, " samples, host block ", n, ": element ", i, " of the output buffer is ", ob[ i ], " expected ", ref[ i ] );
    if( probe.calls != t / P ) c.fail( "renderer called ", probe.calls, " times after ", t, " samples" );
    for( std::size_t k = 0; k < probe.seen.size(); ++k ) for( std::size_t i = 0; i < nIn; ++i ) if( probe.seen[ k ][ i ] != sample( i, k ) ) c.fail( "renderer saw ", probe.seen[ k ][ i ], " on channel ", i, " at sample ", k );
    c.compared( nOut * n + 1 );
    c.state( vx::mix( vx::mix( P * 100 + t % P, variant ), nIn * 10 + nOut ) );
  }
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool q = x.quick();
  std::vector<std::pair<int,int>> w{ { 1, 1 }, { 2, 3 }, { 3, 1 }, { 1, 2 } };
  for( int P : std::vector<int>{ 1, 2, 3, 4, 5, 8, 16 } )
  {
    int len = P <= 2 ? ( q ? 4 : 6 ) : P <= 4 ? ( q ? 3 : 5 ) : ( q ? 2 : 4 ), mx = 2 * P + 2;
    x.add( "period_" + std::to_string( P ), [=]( Chooser & c ) { run( c, P, len, mx, w, 5 ); }, 3 );
  }
  // long constant-size runs: many wrap-arounds of the internal buffers
  x.add( "constant_sizes", [q]( Chooser & c ) {
    std::size_t P = 1 + c.choose( q ? 16 : 40, "period" ), n = 1 + c.choose( q ? 20 : 50, "host size" );
    SignalFlowContext ctx( P, 48000 ); Probe probe( ctx, 1, 2 ); rrl::AudioSignalFlow flow( probe ); rrl::FlexibleBufferWrapper wrap( flow );
    std::size_t t = 0;
    for( int b = 0; b < 60; ++b, t += n )
    {
      std::vector<float> in( n ), o0( n ), o1( n ); for( std::size_t k = 0; k < n; ++k ) in[ k ] = sample( 0, t + k );
      float const * ip[] = { in.data() }; float * op[] = { o0.data(), o1.data() };
      wrap.process( ip, op, n );
      for( std::size_t k = 0; k < n; ++k ) for( int o = 0; o < 2; ++o )
      {
        float e = t + k < P ? 0 : renderer( o, 1, { sample( 0, t + k - P ) }, 0 );
        if( op[ o ][ k ] != e ) c.fail( "period ", P, " host ", n, " sample ", t + k, " is ", op[ o ][ k ], " expected ", e );
      }
    }
    c.compared( 60 * n * 2 ); c.state( P * 1000 + n );
  }, 2 );
  return x.run();
}
