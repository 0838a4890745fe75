//! LIBS: signalflows panningdsp reverbobject visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
// Short-time Fourier analysis, synthesis and their combination for all bounded configurations.
#include "interp.hpp"
#include <libefl/basic_vector.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/time_frequency_parameter.hpp>
#include <librcl/time_frequency_inverse_transform.hpp>
#include <librcl/time_frequency_transform.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libsignalflows/time_frequency_feedthrough.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <complex>
#include <memory>
using namespace visr;
using vx::Chooser;
using std::size_t;
using cd = std::complex<double>;
static double const PI = 3.14159265358979323846;
static double norm( int which, size_t n ) { return which == 0 ? 1.0 : which == 1 ? 1.0 / std::sqrt( (double)n ) : 1.0 / (double)n; }
static double x( size_t ch, long t ) { return t < 0 ? 0.0 : sample( ch, t ); }
struct Cfg { size_t N, hop, dft, win, ch; char const * fft; bool hann; int nrm; };
static Cfg config( Chooser & c, std::vector<size_t> const & Ns, std::vector<size_t> const & dfts, int winChoices, std::vector<size_t> const & chs, bool needsWindow )
{
  Cfg f; f.N = c.pick( Ns, "period" ); std::vector<size_t> hops{ 0 }; for( size_t h = 1; h <= f.N + 1; ++h ) if( f.N % h == 0 || h == f.N + 1 || ( h == f.N - 1 && f.N > 2 ) ) hops.push_back( h );
  f.hop = c.pick( hops, "hop" ); f.dft = c.pick( dfts, "dft size" ); f.ch = c.pick( chs, "channels" ); f.fft = "default"; f.hann = true; f.win = f.dft; f.nrm = c.choose( 3, "normalisation" );
  bool const pow2 = ( f.dft & ( f.dft - 1 ) ) == 0; if( pow2 && f.dft >= 8 && c.flag( "ffts" ) ) f.fft = "ffts";
  if( needsWindow )
  {
    // lengths up to and beyond the transform size
    std::vector<size_t> ws; if( winChoices == 0 ) for( size_t w = 1; w <= f.dft + 1; ++w ) ws.push_back( w ); else { for( size_t w : { (size_t)1, f.dft / 2, f.dft - 1, f.dft, f.dft + 1, f.hop } ) if( w > 0 && std::find( ws.begin(), ws.end(), w ) == ws.end() ) ws.push_back( w ); }
    f.win = c.pick( ws, "window length" ); f.hann = c.flag( "default window" );
  }
  c.note( "period ", f.N, ", hop ", f.hop, ", dft ", f.dft, ", window ", f.win, f.hann ? " (Hann)" : " (given)", ", ", f.ch, " channels, ", f.fft, ", normalisation ", f.nrm );
  return f;
}
static double window( Cfg const & f, size_t i ) { return f.hann ? 0.5 - 0.5 * std::cos( 2 * PI * (double)i / (double)f.win ) : 0.25 + (double)( ( i * 5 ) % 7 ) - 0.5 * (double)i / (double)f.win; }
static bool hopOk( Cfg const & f ) { return f.hop > 0 && f.N % f.hop == 0; }
static void analysis( Chooser & c, std::vector<size_t> const & Ns, std::vector<size_t> const & dfts, int wins, std::vector<size_t> const & chs )
{
  Cfg const f = config( c, Ns, dfts, wins, chs, true ); SignalFlowContext ctx( f.N, 48000 ); std::unique_ptr<rcl::TimeFrequencyTransform> comp;
  auto const nrm = (rcl::TimeFrequencyTransform::Normalisation)f.nrm;
  bool const th = vx::throws( [&] {
    if( f.hann ) comp.reset( new rcl::TimeFrequencyTransform( ctx, "tf", nullptr, f.ch, f.dft, f.win, f.hop, f.fft, nrm ) );
    else { efl::BasicVector<float> w( f.win, 1 ); for( size_t i = 0; i < f.win; ++i ) w[ i ] = (float)window( f, i ); comp.reset( new rcl::TimeFrequencyTransform( ctx, "tf", nullptr, f.ch, f.dft, w, f.hop, f.fft, nrm ) ); } } );
  bool const ok = hopOk( f ) && f.win <= f.dft; if( ok == th ) c.fail( ok ? "valid" : "invalid", " configuration ", th ? "rejected" : "accepted" );
  if( th ) return;
  rrl::AudioSignalFlow flow( *comp ); auto * port = dynamic_cast<pml::SharedDataProtocol::InputBase *>( &flow.externalParameterSendPort( "out" ) ); size_t const F = f.N / f.hop, bins = f.dft / 2 + 1; long t = 0;
  int const blocks = (int)( ( f.win + f.N - 1 ) / f.N ) * 2 + 2; std::vector<float> in( f.ch * f.N ), out( 1 );
  double const sum = 3.0 * 4.0 * (double)f.win; // bound of |x| * |window|, for the tolerance
  for( int b = 0; b < blocks; ++b )
  {
    for( size_t k = 0; k < f.ch; ++k ) for( size_t s = 0; s < f.N; ++s ) in[ k * f.N + s ] = (float)x( k, t + (long)s );
    flow.process( in.data(), f.N, 1, out.data(), f.N, 1 ); t += (long)f.N;
    auto const & p = dynamic_cast<pml::TimeFrequencyParameter<float> const &>( port->data() );
    if( p.numberOfFrames() != F || p.numberOfChannels() != f.ch || p.numberOfDftBins() != bins ) c.fail( "frames have shape ", p.numberOfFrames(), "x", p.numberOfChannels(), "x", p.numberOfDftBins() );
    for( size_t fr = 0; fr < F; ++fr ) for( size_t k = 0; k < f.ch; ++k ) for( size_t q = 0; q < bins; ++q )
    {
      long const end = t - (long)f.N + (long)( ( fr + 1 ) * f.hop ); cd e = 0;
      for( size_t i = 0; i < f.win; ++i ) e += window( f, i ) * x( k, end - (long)f.win + (long)i ) * std::polar( 1.0, -2 * PI * (double)( q * i % f.dft ) / (double)f.dft );
      e *= norm( f.nrm, f.dft ); cd const g( p.at( fr, k, q ).real(), p.at( fr, k, q ).imag() );
      if( !( std::abs( e - g ) <= 3e-6 * sum * norm( f.nrm, f.dft ) * 4 ) ) c.fail( "block ", b, ", frame ", fr, ", channel ", k, ", bin ", q, ": ", g.real(), "+", g.imag(), "i, expected ", e.real(), "+", e.imag(), "i" );
      c.compared();
    }
  }
  c.state( vx::mix( f.N * 64 + f.hop, f.dft * 64 + f.win ) );
}
static cd frameBin( long frame, size_t k, size_t q, size_t dft )
{
  double const re = sample( k * 5 + q, frame * 3 + (long)q ), im = q == 0 || 2 * q == dft ? 0.0 : sample( k * 3 + q + 1, frame * 2 + 7 + (long)q ); return cd( (float)re, (float)im );
}
static void synthesis( Chooser & c, std::vector<size_t> const & Ns, std::vector<size_t> const & dfts, std::vector<size_t> const & chs )
{
  Cfg const f = config( c, Ns, dfts, 0, chs, false ); SignalFlowContext ctx( f.N, 48000 ); std::unique_ptr<rcl::TimeFrequencyInverseTransform> comp;
  bool const th = vx::throws( [&] { comp.reset( new rcl::TimeFrequencyInverseTransform( ctx, "itf", nullptr, f.ch, f.dft, f.hop, f.fft, (rcl::TimeFrequencyInverseTransform::Normalisation)f.nrm ) ); } );
  bool const ok = hopOk( f ) && f.hop <= f.dft; if( ok == th ) c.fail( ok ? "valid" : "invalid", " configuration ", th ? "rejected" : "accepted" );
  if( th ) return;
  rrl::AudioSignalFlow flow( *comp ); auto * port = dynamic_cast<pml::SharedDataProtocol::OutputBase *>( &flow.externalParameterReceivePort( "in" ) ); size_t const F = f.N / f.hop, bins = f.dft / 2 + 1;
  int const blocks = (int)( ( f.dft + f.N - 1 ) / f.N ) * 2 + 2; size_t const total = (size_t)blocks * f.N + f.dft; std::vector<std::vector<double>> e( f.ch, std::vector<double>( total, 0.0 ) ); std::vector<float> in( 1 ), out( f.ch * f.N );
  for( int b = 0; b < blocks; ++b )
  {
    auto & p = dynamic_cast<pml::TimeFrequencyParameter<float> &>( port->data() );
    for( size_t fr = 0; fr < F; ++fr ) for( size_t k = 0; k < f.ch; ++k )
    {
      long const frame = (long)( (size_t)b * F + fr ); std::vector<cd> X( bins ); for( size_t q = 0; q < bins; ++q ) { X[ q ] = frameBin( frame, k, q, f.dft ); p.at( fr, k, q ) = std::complex<float>( X[ q ] ); }
      for( size_t i = 0; i < f.dft; ++i ) { double v = 0; for( size_t q = 0; q < bins; ++q ) v += ( q == 0 || 2 * q == f.dft ? 1.0 : 2.0 ) * ( X[ q ] * std::polar( 1.0, 2 * PI * (double)( q * i % f.dft ) / (double)f.dft ) ).real(); e[ k ][ (size_t)b * f.N + fr * f.hop + i ] += v * norm( f.nrm, f.dft ); }
    }
    flow.process( in.data(), f.N, 1, out.data(), f.N, 1 );
    for( size_t k = 0; k < f.ch; ++k ) for( size_t s = 0; s < f.N; ++s )
    {
      double const x = e[ k ][ (size_t)b * f.N + s ], g = out[ k * f.N + s ]; double const tol = 3e-6 * 4 * (double)f.dft * norm( f.nrm, f.dft ) * (double)( f.dft / f.hop + 1 );
      if( !( std::fabs( x - g ) <= tol ) ) c.fail( "block ", b, ", channel ", k, ", sample ", s, ": ", g, ", expected ", x );
      c.compared();
    }
  }
  c.state( vx::mix( f.N * 64 + f.hop, f.dft ) );
}
// analysis followed by synthesis with matching normalisation
static void feedthrough( Chooser & c, std::vector<size_t> const & Ns, std::vector<size_t> const & dfts, std::vector<size_t> const & chs )
{
  Cfg f = config( c, Ns, dfts, 1, chs, true ); if( !hopOk( f ) || f.win > f.dft || f.hop > f.dft || !f.hann || f.nrm != 1 || f.fft != std::string( "default" ) ) return;
  SignalFlowContext ctx( f.N, 48000 ); signalflows::TimeFrequencyFeedthrough comp( ctx, "thru", nullptr, f.ch, f.dft, f.win, f.hop ); rrl::AudioSignalFlow flow( comp ); std::vector<float> in( f.ch * f.N ), out( f.ch * f.N ); long t = 0;
  int const blocks = (int)( ( f.dft + f.N - 1 ) / f.N ) * 2 + 3; bool const cola = f.win % f.hop == 0 && f.win / f.hop >= 2;
  for( int b = 0; b < blocks; ++b )
  {
    for( size_t k = 0; k < f.ch; ++k ) for( size_t s = 0; s < f.N; ++s ) in[ k * f.N + s ] = (float)x( k, t + (long)s );
    flow.process( in.data(), f.N, 1, out.data(), f.N, 1 );
    for( size_t k = 0; k < f.ch; ++k ) for( size_t s = 0; s < f.N; ++s )
    {
      long const n = t + (long)s; double w = 0; for( long fr = 0; fr * (long)f.hop <= n; ++fr ) { long const i = n - fr * (long)f.hop; if( i < (long)f.win ) w += window( f, (size_t)i ); }
      double const e = w * x( k, n + (long)f.hop - (long)f.win ), g = out[ k * f.N + s ];
      if( cola && n >= (long)f.win && std::fabs( w - (double)( f.win / f.hop ) / 2 ) > 1e-9 ) c.fail( "windows do not add to a constant" );
      if( !( std::fabs( e - g ) <= 3e-5 * ( 1 + (double)f.win / (double)f.hop ) ) ) c.fail( "block ", b, ", channel ", k, ", sample ", s, ": ", g, ", expected ", e );
      c.compared();
    }
    t += (long)f.N;
  }
  c.state( vx::mix( f.N * 64 + f.hop, f.dft * 64 + f.win ) );
}
int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary(); vx::Explorer x( argc, argv ); bool const q = x.quick(); using V = std::vector<size_t>;
  x.add( "analysis", [=]( Chooser & c ) { analysis( c, q ? V{ 1, 2, 4, 6, 8, 16 } : V{ 1, 2, 3, 4, 6, 8, 12, 16, 20, 32 }, q ? V{ 2, 4, 6, 8, 16 } : V{ 2, 4, 6, 8, 10, 12, 16, 20, 32 }, q ? 1 : 0, q ? V{ 1, 2 } : V{ 1, 2, 3 } ); }, 5 );
  x.add( "analysis, every window length", [=]( Chooser & c ) { analysis( c, { 12 }, q ? V{ 8, 12 } : V{ 16, 24 }, 0, { 2 } ); }, 5 );
  x.add( "analysis, long", [=]( Chooser & c ) { analysis( c, q ? V{ 32, 48 } : V{ 32, 48, 64, 128 }, q ? V{ 32 } : V{ 32, 64, 128 }, 1, { 2 } ); }, 5 );
  x.add( "synthesis", [=]( Chooser & c ) { synthesis( c, q ? V{ 1, 2, 3, 4, 6, 8, 16 } : V{ 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 20, 32 }, q ? V{ 2, 4, 6, 8, 16, 32 } : V{ 2, 4, 6, 8, 10, 12, 16, 20, 32, 64 }, { 1, 2, 3 } ); }, 5 );
  x.add( "analysis and synthesis", [=]( Chooser & c ) { feedthrough( c, q ? V{ 2, 4, 8, 12, 16 } : V{ 1, 2, 4, 5, 8, 12, 16, 32 }, q ? V{ 4, 8, 16 } : V{ 4, 6, 8, 12, 16, 32 }, { 1, 2 } ); }, 5 );
  return x.run();
}
