//! LIBS: visr rrl rbbl efl pml objectmodel panning kissfft
//! LINK: -lboost_filesystem -lboost_system -lsndfile
#include "explore.hpp"
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_input.hpp>
#include <libvisr/parameter_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <libvisr/time.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/scalar_parameter.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <atomic>
#include <thread>
using namespace visr;
using vx::Chooser;
typedef pml::ScalarParameter<int> IntP;

enum Kind { None = 0, ThrowRuntime, ThrowRange, StatusError, StatusCritical, ThrowAfter, Warn };
struct World
{
  struct Rec { int id; std::size_t blocks, samples; double time; bool lockHeld; std::vector<int> msgs; int shared; };
  std::vector<Rec> log; int failAt = -1; Kind kind = None; rrl::AudioSignalFlow * flow = nullptr; int call = 0; bool probeLock = true;
};
class Unit : public AtomicComponent
{
public:
  Unit( SignalFlowContext const & c, char const * n, CompositeComponent * p, int id, World & w, bool send, bool recv ) : AtomicComponent( c, n, p ), mIn( "in", *this, 1 ), mOut( "out", *this, 1 ), mId( id ), mW( w )
  {
    if( send ) mSend.reset( new ParameterOutput<pml::MessageQueueProtocol, IntP>( "send", *this, pml::EmptyParameterConfig() ) );
    if( recv ) { mRecv.reset( new ParameterInput<pml::MessageQueueProtocol, IntP>( "recv", *this, pml::EmptyParameterConfig() ) ); mExt.reset( new ParameterInput<pml::DoubleBufferingProtocol, IntP>( "ext", *this, pml::EmptyParameterConfig() ) ); }
  }
  void process() override
  {
    World::Rec r{ mId, time().blockCount(), time().sampleCount(), time().renderingTime(), true, {}, 0 };
    if( mW.probeLock )
    {
      bool got = false; std::thread t( [&] { auto & m = mW.flow->parameterExchangeMutex(); if( m.try_lock() ) { got = true; m.unlock(); } } ); t.join();
      r.lockHeld = !got;
    }
    if( mExt ) r.shared = mExt->data().value();
    bool fails = mW.failAt == mId;
    if( fails && mW.kind != ThrowAfter && mW.kind != Warn )
    {
      mW.log.push_back( r );
      switch( mW.kind )
      {
      case ThrowRuntime: throw std::runtime_error( "MARK failure of unit " + std::to_string( mId ) );
      case ThrowRange: throw std::out_of_range( "MARK failure of unit " + std::to_string( mId ) );
      case StatusError: status( StatusMessage::Error, "MARK failure of unit ", mId ); break;
      case StatusCritical: status( StatusMessage::Critical, "MARK failure of unit ", mId ); break;
      default: break;
      }
    }
    if( mRecv ) while( !mRecv->empty() ) { r.msgs.push_back( mRecv->front().value() ); mRecv->pop(); }
    mW.log.push_back( r );
    for( std::size_t k = 0; k < period(); ++k ) mOut[ 0 ][ k ] = mIn[ 0 ][ k ] * 2 + mId;
    if( mSend ) mSend->enqueue( IntP( mW.call ) );
    if( fails && mW.kind == ThrowAfter ) throw std::logic_error( "MARK failure of unit " + std::to_string( mId ) );
    if( fails && mW.kind == Warn ) { status( StatusMessage::Warning, "nothing serious" ); status( StatusMessage::Information, "nothing at all" ); }
  }
  AudioInput mIn; AudioOutput mOut;
  std::unique_ptr<ParameterOutput<pml::MessageQueueProtocol, IntP>> mSend;
  std::unique_ptr<ParameterInput<pml::MessageQueueProtocol, IntP>> mRecv;
  std::unique_ptr<ParameterInput<pml::DoubleBufferingProtocol, IntP>> mExt;
private:
  int mId; World & mW;
};
struct Inner : CompositeComponent
{
  Inner( SignalFlowContext const & c, CompositeComponent * p, World & w ) : CompositeComponent( c, "X", p ), mIn( "in", *this, 1 ), mOut( "out", *this, 1 ), b( c, "B", this, 1, w, false, false )
  { audioConnection( mIn, b.mIn ); audioConnection( b.mOut, mOut ); }
  AudioInput mIn; AudioOutput mOut; Unit b;
};
struct Top : CompositeComponent
{
  Top( SignalFlowContext const & c, World & w ) : CompositeComponent( c, "top" ), mIn( "in", *this, 1 ), mOut( "out", *this, 1 ), mExt( "ext", *this, pml::EmptyParameterConfig() ), cc( c, "C", this, 2, w, false, true ), x( c, this, w ), a( c, "A", this, 0, w, true, false )
  {
    audioConnection( mIn, a.mIn ); audioConnection( a.mOut, x.mIn ); audioConnection( x.mOut, cc.mIn ); audioConnection( cc.mOut, mOut );
    parameterConnection( *a.mSend, *cc.mRecv ); parameterConnection( mExt, *cc.mExt );
  }
  AudioInput mIn; AudioOutput mOut; ParameterInput<pml::DoubleBufferingProtocol, IntP> mExt; Unit cc; Inner x; Unit a;
};
static void history( Chooser & c, int periods, bool probe )
{
  pml::initialiseParameterLibrary();
  static const std::size_t Ps[] = { 1, 4, 6 };
  std::size_t P = Ps[ c.choose( 3, "period" ) ]; double fs = c.flag( "sampling rate" ) ? 44100 : 48000;
  SignalFlowContext ctx( P, fs ); World w; w.probeLock = probe; Top top( ctx, w ); rrl::AudioSignalFlow flow( top ); w.flow = &flow;
  auto & ext = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase &>( flow.externalParameterReceivePort( "ext" ) );
  std::size_t done = 0; std::vector<int> pending; int extVal = 0;
  for( int b = 0; b < periods; ++b )
  {
    // 0: fine; otherwise unit 0..2 fails in one of the ways
    int ch = c.choose( 1 + 3 * 6, "what happens" ); int variant = b % 3;
    w.failAt = ch == 0 ? -1 : ( ch - 1 ) / 6; w.kind = ch == 0 ? None : Kind( 1 + ( ch - 1 ) % 6 ); w.call = b + 1; w.log.clear();
    c.note( "period ", b, ": ", w.failAt < 0 ? "no failure" : "unit ", w.failAt, " kind ", int( w.kind ) );
    bool fails = w.failAt >= 0 && w.kind != Warn;
    if( b % 2 == 0 ) { std::lock_guard<rrl::AudioSignalFlow::ParameterExchangeMutexType> g( flow.parameterExchangeMutex() ); extVal = 10 + b; dynamic_cast<IntP &>( ext.data() ) = IntP( extVal ); ext.swapBuffers(); }
    std::vector<float> in( P ), out( P, -5.f ); for( std::size_t k = 0; k < P; ++k ) in[ k ] = float( 100 * b + k + 1 );
    float const * ip[] = { in.data() }; float * op[] = { out.data() };
    std::string msg; bool threw = false; bool st = true;
    {
      vx::Mute m;
      try
      {
        if( variant == 0 ) st = flow.process( ip, op ); else if( variant == 1 ) flow.process( in.data(), 1, 1, out.data(), 1, 1 ); else rrl::AudioSignalFlow::processFunction( &flow, ip, op, st );
      }
      catch( std::exception const & e ) { threw = true; msg = e.what(); }
    }
    bool surfaced = threw || !st;
    if( fails && !surfaced ) c.fail( "period ", b, ": failure of unit ", w.failAt, " did not surface" );
    if( fails && threw && msg.find( "failure of unit " + std::to_string( w.failAt ) ) == std::string::npos ) c.fail( "error message lost: ", msg );
    if( !fails && surfaced ) c.fail( "period ", b, ": reported as failed: ", msg );
    // what each unit saw
    std::size_t expectN = fails ? w.failAt + 1 : 3;
    if( w.log.size() != expectN ) c.fail( "period ", b, ": ", w.log.size(), " units executed, expected ", expectN );
    for( std::size_t i = 0; i < w.log.size(); ++i )
    {
      auto & r = w.log[ i ];
      if( r.id != (int)i ) c.fail( "unit executed out of order" );
      if( r.blocks != done || r.samples != done * P ) c.fail( "period ", b, " unit ", i, ": time reports block ", r.blocks, " sample ", r.samples, " expected ", done, " / ", done * P );
      if( std::fabs( r.time - double( done * P ) / fs ) > 1e-9 ) c.fail( "rendering time ", r.time, " expected ", double( done * P ) / fs );
      if( !r.lockHeld ) c.fail( "period ", b, " unit ", i, ": the parameter exchange lock was free while the period was running" );
    }
    // messages: sent by unit 0 if it got that far, delivered when unit 2 runs far enough
    bool aSent = !( fails && w.failAt == 0 ) || w.kind == ThrowAfter;
    if( aSent ) pending.push_back( b + 1 );
    bool cReads = !fails || ( w.failAt == 2 && w.kind == ThrowAfter );
    if( cReads )
    {
      if( w.log[ 2 ].msgs != pending ) c.fail( "period ", b, ": ", w.log[ 2 ].msgs.size(), " messages delivered, expected ", pending.size() );
      if( w.log[ 2 ].shared != extVal ) c.fail( "period ", b, ": external parameter ", w.log[ 2 ].shared, " expected ", extVal );
      pending.clear();
    }
    if( !fails ) { ++done; for( std::size_t k = 0; k < P; ++k ) { float e = ( ( in[ k ] * 2 + 0 ) * 2 + 1 ) * 2 + 2; if( out[ k ] != e ) c.fail( "period ", b, " sample ", k, " is ", out[ k ], " expected ", e ); } }
    if( !flow.parameterExchangeMutex().try_lock() ) c.fail( "period ", b, ": parameter exchange lock still held afterwards" );
    flow.parameterExchangeMutex().unlock();
    c.compared( 8 ); c.state( vx::mix( vx::mix( P, done ), vx::mix( pending.size(), ch ) ) );
  }
}
// A host holding the exchange lock keeps the next period from starting.
static void blocked( Chooser & c )
{
  pml::initialiseParameterLibrary();
  SignalFlowContext ctx( 4, 48000 ); World w; w.probeLock = false; Top top( ctx, w ); rrl::AudioSignalFlow flow( top ); w.flow = &flow;
  auto & ext = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase &>( flow.externalParameterReceivePort( "ext" ) );
  int variant = c.choose( 3, "call" ); bool failFirst = c.flag( "after a failing period" );
  std::vector<float> in( 4, 1.f ), out( 4 ); float const * ip[] = { in.data() }; float * op[] = { out.data() };
  if( failFirst ) { w.failAt = 1; w.kind = ThrowRuntime; vx::Mute m; vx::throws( [&] { flow.process( ip, op ); } ); w.failAt = -1; w.log.clear(); }
  flow.parameterExchangeMutex().lock();
  std::atomic<bool> started( false ), finished( false );
  std::thread t( [&] { started = true; bool st; if( variant == 0 ) flow.process( ip, op ); else if( variant == 1 ) flow.process( in.data(), 1, 1, out.data(), 1, 1 ); else rrl::AudioSignalFlow::processFunction( &flow, ip, op, st ); finished = true; } );
  while( !started ) std::this_thread::yield();
  std::this_thread::sleep_for( std::chrono::milliseconds( 30 ) );
  bool ran = finished;
  if( !ran ) { dynamic_cast<IntP &>( ext.data() ) = IntP( 77 ); ext.swapBuffers(); }
  flow.parameterExchangeMutex().unlock();
  t.join();
  if( ran ) c.fail( "a period ran while the host held the parameter exchange lock" );
  if( w.log.size() != 3 || w.log[ 2 ].shared != 77 ) c.fail( "parameter exchanged under the lock not seen by the following period" );
  c.compared(); c.state( uint64_t( variant * 2 + failFirst ) );
}
// Time far from the start: large periods (without audio ports) and many periods.
struct Clock : public AtomicComponent
{
  struct Rec { std::size_t blocks, samples; double time; }; Rec & r; bool const & fail;
  Clock( SignalFlowContext const & c, char const * n, CompositeComponent * p, Rec & x, bool const & f ) : AtomicComponent( c, n, p ), r( x ), fail( f ) {}
  void process() override { r = Rec{ time().blockCount(), time().sampleCount(), time().renderingTime() }; if( fail ) throw std::runtime_error( "failure" ); }
};
struct Clocks : public CompositeComponent { Clock a, b; Clocks( SignalFlowContext const & c, Clock::Rec & x, Clock::Rec & y, bool const & f ) : CompositeComponent( c, "clocks" ), a( c, "a", this, x, f ), b( c, "b", this, y, f ) {} };
static void longTimes( Chooser & c )
{
  std::size_t const P = c.pick( std::vector<std::size_t>{ std::size_t( 1 ) << 16, ( std::size_t( 1 ) << 31 ) - 1, std::size_t( 1 ) << 31, ( std::size_t( 1 ) << 32 ) + 3, std::size_t( 1 ) << 44, 7 }, "period" ), fs = c.pick( std::vector<std::size_t>{ 1, 44100, 48000 }, "sampling rate" ); bool fail = false; Clock::Rec a{}, b{};
  SignalFlowContext ctx( P, fs ); Clocks top( ctx, a, b, fail ); rrl::AudioSignalFlow flow( top ); std::size_t done = 0; std::size_t const many = P == 7 ? 70000 : P == std::size_t( 1 ) << 16 ? 66000 : 6; int const failures = c.choose( 8, "failing periods" );
  for( std::size_t k = 0; k < many; ++k )
  {
    fail = k < 3 && ( failures >> k ) % 2; a = b = Clock::Rec{ 99, 99, 99 }; bool const t = vx::throws( [&] { flow.process( static_cast<float const * const *>( nullptr ), static_cast<float * const *>( nullptr ) ); } ); c.compared();
    if( t != fail ) c.fail( "period ", k, fail ? " hid a failure" : " failed" );
    for( auto const * r : { &a, &b } ) if( !( fail && r == &b ) && !( fail && r->blocks == 99 ) && ( r->blocks != done || r->samples != done * P || std::abs( r->time - (double)( done * P ) / (double)fs ) > 1e-9 * ( 1 + r->time ) ) ) c.fail( "after ", done, " periods of ", P, " samples a component sees block ", r->blocks, ", sample ", r->samples, ", time ", r->time );
    done += !fail;
  }
  if( top.time().blockCount() != done || top.time().sampleCount() != done * P ) c.fail( "time after ", done, " periods is ", top.time().sampleCount() ); c.state( vx::mix( P, done ) );
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool q = x.quick();
  x.add( "failures", [q]( Chooser & c ) { history( c, q ? 3 : 4, false ); }, 3 );
  x.add( "failures_lock", []( Chooser & c ) { history( c, 2, true ); }, 3 );
  x.add( "long times", longTimes, 1 );
  x.add( "blocked", blocked, 1 );
  return x.run();
}
