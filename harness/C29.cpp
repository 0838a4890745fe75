//! LIBS: panningdsp rrl visr pml objectmodel rbbl efl kissfft ffts
//! LINK: -lboost_filesystem -lboost_thread -lboost_system -lsndfile
// Timed gain transitions of panningdsp::PanningGainMatrix: all bounded sequences of transition messages over a number of periods, against a model which evaluates every object sample by sample,
// and all copies and assignments of the associated parameter type.
#include "explore.hpp"
#include <libpanningdsp/initialise_parameter_library.hpp>
#include <libpanningdsp/panning_gain_matrix.hpp>
#include <libpanningdsp/panning_matrix_parameter.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <cmath>
#include <memory>
using namespace visr; using namespace vx; using DB = pml::DoubleBufferingProtocol; using panningdsp::PanningGainMatrix; using panningdsp::PanningMatrixParameter; using Time_t = panningdsp::TimeType;
static Time_t const NEVER = panningdsp::cTimeStampInfinity;
struct Transition { Time_t start = NEVER, duration = 0; std::vector<double> gains; };
// The documented semantics of a single object.
struct Object
{
  std::vector<double> from, to; Time_t begin = 0, end = 0; Transition stored;
  std::vector<double> at( Time_t n ) const { if( n >= end ) return to; std::vector<double> g( to ); for( std::size_t i = 0; i < g.size(); ++i ) g[ i ] = from[ i ] + ( to[ i ] - from[ i ] ) * (double)( n - begin ) / (double)( end - begin ); return g; } // gain reached at time n
  void start( Transition const & t ) { from = t.duration ? at( t.start ) : t.gains; to = t.gains; begin = t.start; end = t.start + t.duration; stored = Transition(); }
  void reach( Time_t n ) { if( stored.start == n ) start( Transition( stored ) ); }
  bool receive( Time_t n, Transition const & t ) { if( t.start == NEVER ) return true; if( t.start < n ) return false; if( t.start == n ) start( t ); else stored = t; return true; }
};
static void set( PanningMatrixParameter & p, std::vector<Transition> const & m )
{
  for( std::size_t o = 0; o < m.size(); ++o ) { p.timeStamps()[ o ] = m[ o ].start; p.transitionTimes()[ o ] = m[ o ].duration; for( std::size_t l = 0; l < p.numberOfLoudspeakers(); ++l ) p.gains()( o, l ) = l < m[ o ].gains.size() ? (float)m[ o ].gains[ l ] : 77.f; }
}
enum class Start { Zero, Gains, Transitions };
struct System
{
  std::size_t nObj, nLsp, N; SignalFlowContext ctx; std::unique_ptr<PanningGainMatrix> comp; std::unique_ptr<rrl::AudioSignalFlow> flow; DB::OutputBase * port; std::vector<Object> model; Time_t now = 0;
  System( std::size_t o, std::size_t l, std::size_t n, Start start, std::vector<Transition> const & initial ) : nObj( o ), nLsp( l ), N( n ), ctx( n, 48000 ), model( o )
  {
    efl::BasicMatrix<float> g( o, l, 4 ); for( std::size_t i = 0; i < o; ++i ) for( std::size_t k = 0; k < l; ++k ) { double const v = start == Start::Zero ? 0.0 : 0.5 + (double)i - 0.25 * (double)k; g( i, k ) = (float)v; model[ i ].from.push_back( v ); model[ i ].to.push_back( v ); }
    if( start == Start::Zero ) comp.reset( new PanningGainMatrix( ctx, "p", nullptr, o, l ) ); else if( start == Start::Gains ) comp.reset( new PanningGainMatrix( ctx, "p", nullptr, o, l, g ) );
    else { PanningMatrixParameter p( o, l ); set( p, initial ); comp.reset( new PanningGainMatrix( ctx, "p", nullptr, o, l, g, p ) ); for( std::size_t i = 0; i < o; ++i ) model[ i ].receive( 0, initial[ i ] ); }
    flow.reset( new rrl::AudioSignalFlow( *comp ) ); port = &dynamic_cast<DB::OutputBase &>( flow->externalParameterReceivePort( "gainInput" ) );
  }
  static float signal( std::size_t o, Time_t n ) { return 1.f + 3.f * (float)o - 0.25f * (float)( n % 3 ); }
  // One period, optionally preceded by a message. Returns false if the period failed.
  bool run( Chooser & c, std::vector<Transition> const * m )
  {
    bool admissible = true; if( m ) { set( dynamic_cast<PanningMatrixParameter &>( port->data() ), *m ); port->swapBuffers(); for( std::size_t o = 0; o < nObj; ++o ) admissible = model[ o ].receive( now, ( *m )[ o ] ) && admissible; }
    std::vector<std::vector<float>> in( nObj, std::vector<float>( N ) ), out( nLsp, std::vector<float>( N, 99.f ) ); std::vector<float const *> ip; std::vector<float *> op; for( std::size_t o = 0; o < nObj; ++o ) { for( std::size_t i = 0; i < N; ++i ) in[ o ][ i ] = signal( o, now + i ); ip.push_back( in[ o ].data() ); } for( auto & v : out ) op.push_back( v.data() );
    bool const failed = throws( [&] { Mute mute; flow->process( ip.data(), op.data() ); } ); c.compared( 1 + nLsp * N );
    if( failed != !admissible ) c.fail( failed ? "an admissible message made the period fail" : "a transition starting in the past was not reported" );
    if( failed ) return false;
    for( std::size_t i = 0; i < N; ++i )
    {
      if( i >= 64 && i + 64 < N && i % 1009 && N > 1000 ) continue; // large periods: starts are close to the limits of periods
      std::vector<double> e( nLsp, 0.0 ); for( std::size_t o = 0; o < nObj; ++o ) { if( i ) model[ o ].reach( now + i ); auto const g = model[ o ].at( now + i + 1 ); for( std::size_t l = 0; l < nLsp; ++l ) e[ l ] += g[ l ] * signal( o, now + i ); }
      for( std::size_t l = 0; l < nLsp; ++l ) if( !( std::abs( out[ l ][ i ] - e[ l ] ) < 2e-5 * ( 1 + std::abs( e[ l ] ) ) ) ) c.fail( "loudspeaker ", l, " at time ", now + i, " is ", out[ l ][ i ], " instead of ", e[ l ] );
    }
    now += N; for( auto & o : model ) o.reach( now ); return true;
  }
  uint64_t state() const { uint64_t h = mix( nObj * 8 + nLsp, N ); for( auto const & o : model ) { h = mix( h, o.end > now ? o.end - now : 0 ); h = mix( h, o.end > now ? now - o.begin : 0 ); h = mix( h, o.stored.start == NEVER ? 0 : 1 + o.stored.start - now ); h = mix( h, o.stored.start == NEVER ? 0 : o.stored.duration ); } return h; }
};
// A transition is absent or one of the given starts (relative to the present time) and durations. A transition replacing one that starts just now is not covered by the specification.
static Transition pick( Chooser & c, System const & s, std::size_t o, std::vector<Time_t> const & starts, std::vector<Time_t> const & durations, int serial, bool past, bool now = false )
{
  Transition t; int const n = c.choose( 1 + (int)( starts.size() * durations.size() ) + ( past && s.now ? 1 : 0 ), "transition" ); for( std::size_t l = 0; l < s.nLsp; ++l ) t.gains.push_back( ( serial % 2 ? -1 : 1 ) * ( 0.25 + 0.5 * serial ) + (double)l );
  if( n == 0 ) return t; if( n == 1 + (int)( starts.size() * durations.size() ) ) { t.start = s.now - 1; t.duration = 2; return t; }
  t.start = s.now + starts[ (std::size_t)( n - 1 ) / durations.size() ]; t.duration = durations[ (std::size_t)( n - 1 ) % durations.size() ]; if( now ) t.start = NEVER; (void)o; return t;
}
static void single( Chooser & c, std::vector<std::size_t> const & periods, std::size_t messages, bool fine )
{
  std::size_t const N = c.pick( periods, "period" ); System s( 1, 1, N, Start::Gains, {} ); std::vector<Time_t> starts{ 0, 1, N, 2 * N + 1 }, durations{ 0, 1, N, 2 * N + 1 }; if( fine ) { starts.push_back( N - 1 ); starts.push_back( N + 1 ); starts.push_back( 2 * N ); durations.push_back( N + 1 ); durations.push_back( N - 1 ); }
  for( std::size_t b = 0; b < messages + 4; ++b )
  {
    if( b < messages ) { std::vector<Transition> const m{ pick( c, s, 0, starts, durations, (int)b, false ) }; if( m[ 0 ].start != NEVER ) { if( !s.run( c, &m ) ) c.fail( "failed period" ); } else s.run( c, nullptr ); }
    else s.run( c, nullptr );
    c.state( s.state() );
  }
}
static void several( Chooser & c, std::size_t nObj, std::size_t nLsp, std::size_t messages )
{
  std::size_t const N = 4; Start const start = c.pick( std::vector<Start>{ Start::Zero, Start::Transitions }, "initialisation" ); std::vector<Transition> initial( nObj ); for( std::size_t o = 0; o < nObj; ++o ) { auto & t = initial[ o ]; if( o != 1 ) t.start = o ? 0 : 2; t.duration = 5; for( std::size_t l = 0; l < nLsp; ++l ) t.gains.push_back( 2.0 - (double)( o + l ) ); }
  System s( nObj, nLsp, N, start, initial ); int serial = 0;
  for( std::size_t b = 0; b < messages + 3; ++b )
  {
    bool const send = b < messages && c.flag( "message" ); if( !send ) { s.run( c, nullptr ); c.state( s.state() ); continue; }
    std::vector<Transition> m; for( std::size_t o = 0; o < nObj; ++o ) m.push_back( pick( c, s, o, { 0, 3, 6 }, { 0, 2, 7 }, serial++, true ) ); if( !s.run( c, &m ) ) s.run( c, nullptr ); c.state( s.state() );
  }
}
// Times that single-precision numbers cannot represent.
static void late( Chooser & c )
{
  std::size_t const N = std::size_t( 1 ) << 22; Time_t const far = Time_t( 1 ) << 24; System s( 1, 1, N, Start::Gains, {} ); std::vector<Transition> m( 1 ); int const when = c.choose( 3, "when" ); Time_t const from = c.pick( std::vector<Time_t>{ 1, N - 1, N + 1 }, "start" ), length = c.pick( std::vector<Time_t>{ 0, 5, N + 3 }, "duration" );
  for( std::size_t b = 0; b < 7; ++b ) { if( b == ( when ? 4u : 0u ) ) { m[ 0 ] = Transition{ far + from, length, { -1.5 } }; s.run( c, &m ); } else if( when == 2 && b == 5 ) { m[ 0 ] = Transition{ s.now + 3, 4, { 2.5 } }; s.run( c, &m ); } else s.run( c, nullptr ); c.state( s.state() ); }
}
// Sizes without objects or loudspeakers.
static void empty( Chooser & c ) { std::size_t const o = (std::size_t)c.choose( 3, "objects" ), l = o ? 0 : (std::size_t)c.choose( 3, "loudspeakers" ); System s( o, l, 4, Start::Zero, {} ); for( int b = 0; b < 3; ++b ) s.run( c, nullptr ); }
// --- Parameter type
struct Value { std::size_t o, l; int seed; };
static void assign( PanningMatrixParameter & p, Value const & v ) { for( std::size_t i = 0; i < v.o; ++i ) { p.timeStamps()[ i ] = (Time_t)v.seed * 100 + i; p.transitionTimes()[ i ] = (Time_t)v.seed * 1000 + i; for( std::size_t k = 0; k < v.l; ++k ) p.gains()( i, k ) = (float)v.seed + 0.5f * (float)i + 0.25f * (float)k; } }
static std::unique_ptr<PanningMatrixParameter> make( Chooser & c, int seed, int sizes, Value & v )
{
  v.o = (std::size_t)c.choose( sizes, "objects" ); v.l = (std::size_t)c.choose( sizes, "loudspeakers" ); v.seed = seed; std::size_t const al = (std::size_t)c.choose( 2, "alignment" ) * 4; std::unique_ptr<PanningMatrixParameter> p;
  switch( c.choose( 3, "constructor" ) )
  {
    case 0: p.reset( new PanningMatrixParameter( v.o, v.l, al ) ); for( std::size_t i = 0; i < v.o; ++i ) { if( p->timeStamps()[ i ] != NEVER ) c.fail( "new parameter contains a transition" ); for( std::size_t k = 0; k < v.l; ++k ) if( p->gains()( i, k ) != 0 ) c.fail( "new parameter contains a gain" ); } assign( *p, v ); break;
    case 1: p.reset( new PanningMatrixParameter( pml::MatrixParameterConfig( v.o, v.l ) ) ); assign( *p, v ); break;
    default: { efl::BasicMatrix<float> g( v.o, v.l, al ); efl::AlignedArray<Time_t> a( v.o, 0 ), b( v.o, 0 ); for( std::size_t i = 0; i < v.o; ++i ) { a[ i ] = (Time_t)v.seed * 100 + i; b[ i ] = (Time_t)v.seed * 1000 + i; for( std::size_t k = 0; k < v.l; ++k ) g( i, k ) = (float)v.seed + 0.5f * (float)i + 0.25f * (float)k; } p.reset( new PanningMatrixParameter( g, a, b ) ); }
  }
  return p;
}
static void expect( Chooser & c, PanningMatrixParameter const & p, Value const & v, char const * what )
{
  c.compared( 1 + v.o * ( 2 + v.l ) ); if( p.numberOfObjects() != v.o || p.numberOfLoudspeakers() != v.l || p.timeStamps().size() != v.o || p.transitionTimes().size() != v.o ) c.fail( what, ": ", p.numberOfObjects(), "x", p.numberOfLoudspeakers(), " instead of ", v.o, "x", v.l );
  for( std::size_t i = 0; i < v.o; ++i ) { if( p.timeStamps()[ i ] != (Time_t)v.seed * 100 + i || p.transitionTimes()[ i ] != (Time_t)v.seed * 1000 + i ) c.fail( what, ": wrong times of object ", i ); for( std::size_t k = 0; k < v.l; ++k ) if( p.gains()( i, k ) != (float)v.seed + 0.5f * (float)i + 0.25f * (float)k ) c.fail( what, ": wrong gain ", i, ",", k ); }
}
static void parameter( Chooser & c, int sizes )
{
  Value va, vb; auto a = make( c, 1, sizes, va ), b = make( c, 2, sizes, vb ); expect( c, *a, va, "new parameter" ); expect( c, *b, vb, "new parameter" ); std::unique_ptr<ParameterBase> copy;
  switch( c.choose( 5, "operation" ) )
  {
    case 0: if( throws( [&] { *a = *b; } ) ) c.fail( "assignment failed" ); break;
    case 1: if( throws( [&] { static_cast<ParameterBase &>( *a ).assign( *b ); } ) ) c.fail( "assignment through the base class failed" ); break;
    case 2: a.reset( new PanningMatrixParameter( *b ) ); break;
    case 3: copy = b->clone(); a.reset( dynamic_cast<PanningMatrixParameter *>( copy.release() ) ); break;
    default: { auto & r = *a; r = *a; expect( c, *a, va, "after self assignment" ); return; }
  }
  expect( c, *a, vb, "copy" ); expect( c, *b, vb, "source of a copy" ); assign( *a, { vb.o, vb.l, 3 } ); expect( c, *b, vb, "source after the copy was changed" ); assign( *b, { vb.o, vb.l, 4 } ); expect( c, *a, { vb.o, vb.l, 3 }, "copy after the source was changed" ); c.state( mix( va.o * 8 + va.l, vb.o * 8 + vb.l ) );
}
int main( int argc, char ** argv )
{
  Explorer x( argc, argv ); bool const q = x.quick(); pml::initialiseParameterLibrary(); panningdsp::initialiseParameterLibrary();
  x.add( "one object", [q]( Chooser & c ) { single( c, { 1, 2, 4, 5, 8 }, q ? 3 : 4, false ); }, 3 );
  x.add( "one object, fine", [q]( Chooser & c ) { single( c, q ? std::vector<std::size_t>{ 4 } : std::vector<std::size_t>{ 4, 7 }, 3, true ); }, 2 );
  x.add( "two objects", [q]( Chooser & c ) { several( c, 2, q ? 1 : 2, 2 ); }, 4 );
  x.add( "three objects", []( Chooser & c ) { several( c, 3, 2, 1 ); }, 4 );
  if( !q ) x.add( "two objects, longer", []( Chooser & c ) { several( c, 2, 1, 3 ); }, 5 );
  x.add( "late", late, 3 );
  x.add( "empty", []( Chooser & c ) { empty( c ); }, 1 );
  x.add( "parameter", [q]( Chooser & c ) { parameter( c, q ? 3 : 4 ); }, 4 );
  return x.run();
}
