//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile -lboost_thread -lpthread -ldl -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=recvmsg,--wrap=sendmsg,--wrap=recvfrom,--wrap=sendto,--wrap=recv,--wrap=send,--wrap=epoll_wait,--wrap=_Znwm,--wrap=_ZdlPvm
// UDP components over the loopback interface: all schedules of the processing thread and the service thread within a preemption bound, for all sequences of arrivals and periods.
#include "runner.hpp"
#include "sched.hpp"
#include <libpml/string_parameter.hpp>
#include <librcl/udp_receiver.hpp>
#include <librcl/udp_sender.hpp>
#include <arpa/inet.h>
#include <fcntl.h>
#include <unistd.h>
using namespace vx; using MQ = pml::MessageQueueProtocol;
static sockaddr_in local( int port ) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons( (std::uint16_t)port ); a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); return a; }
struct Socket
{
  int fd; int port = 0;
  Socket() : fd( ::socket( AF_INET, SOCK_DGRAM, 0 ) ) { auto a = local( 0 ); socklen_t l = sizeof a; if( ::bind( fd, (sockaddr *)&a, l ) != 0 || ::getsockname( fd, (sockaddr *)&a, &l ) != 0 ) throw std::runtime_error( "no loopback network" ); port = ntohs( a.sin_port ); }
  ~Socket() { ::close( fd ); } Socket( Socket const & ) = delete;
  void send( int to, std::string const & m ) { auto a = local( to ); if( __real_sendto( fd, m.data(), m.size(), 0, (sockaddr *)&a, sizeof a ) != (ssize_t)m.size() ) throw std::runtime_error( "loopback transmission failed" ); }
  bool receive( std::string & m ) { static std::vector<char> b( 70000 ); ssize_t const n = __real_recv( fd, b.data(), b.size(), MSG_DONTWAIT ); if( n < 0 ) return false; m.assign( b.data(), (std::size_t)n ); return true; }
};
// A port that no other process uses.
static int unusedPort() { static int next = 0; for( ;; ) { int const p = 10000 + ( (int)::getpid() * 16 + next++ % 16 ) % 20000; int const f = ::socket( AF_INET, SOCK_DGRAM, 0 ); auto a = local( p ); a.sin_addr.s_addr = INADDR_ANY; bool const ok = ::bind( f, (sockaddr *)&a, sizeof a ) == 0; ::close( f ); if( ok ) return p; } }
static std::string content( int set, int k )
{
  switch( set ) { case 0: return "message " + std::to_string( k ); case 1: return k % 2 ? "" : std::string( 1, (char)( 'a' + k ) ); case 2: return std::string( "x\0y", 3 ) + std::string( (std::size_t)k, '\0' ) + (char)( 200 + k ); default: { std::string s( (std::size_t)( 8192 - k ), ' ' ); for( std::size_t i = 0; i < s.size(); ++i ) s[ i ] = (char)( ( i * 7 + i / 251 + (std::size_t)k ) % 256 ); return s; } }
}
static std::string shown( std::string const & s ) { std::string r; for( char ch : s.substr( 0, 20 ) ) { char b[ 8 ]; std::snprintf( b, sizeof b, ch >= ' ' && ch < 127 ? "%c" : "\\x%02x", (unsigned char)ch ); r += b; } return "\"" + r + ( s.size() > 20 ? "...\"" : "\"" ); }
struct Queue
{
  std::vector<std::string> sent, got;
  void check( Chooser & c, bool complete ) const
  {
    c.compared(); for( std::size_t k = 0; k < got.size(); ++k ) { if( k >= sent.size() ) c.fail( "message ", shown( got[ k ] ), " was never sent" ); if( got[ k ] != sent[ k ] ) c.fail( "message ", k, " is ", shown( got[ k ] ), " (", got[ k ].size(), " bytes) instead of ", shown( sent[ k ] ), " (", sent[ k ].size(), " bytes)" ); }
    if( complete && got.size() < sent.size() ) c.fail( sent.size() - got.size(), " of ", sent.size(), " messages were lost, starting with ", shown( sent[ got.size() ] ) );
  }
};
// Plans: a message (0), a period (1) or a turn of the service thread (2), several times; then either shutting down at once or delivering everything first.
struct Plan { std::vector<int> ops; int set; bool complete; };
static Plan plan( Chooser & c, int n, bool fixedSet, bool async ) { Plan p; p.set = fixedSet ? 0 : c.choose( 4, "contents" ); p.complete = c.flag( "deliver all" ); for( int k = 0; k < n; ++k ) p.ops.push_back( c.choose( async ? 3 : 2, "operation" ) ); return p; }
static void receiver( Chooser & c, bool async, int n, int preemptions, bool allocs )
{
  Plan const p = plan( c, n, preemptions > 1, async ); Queue q; Socket out; int const port = unusedPort(); SignalFlowContext ctx( 4, 48000 ); std::unique_ptr<rcl::UdpReceiver> r; std::unique_ptr<rrl::AudioSignalFlow> flow;
  if( async ) sched::begin( c, preemptions, allocs ); sched::Guard g;
  { sched::Region z; r.reset( new rcl::UdpReceiver( ctx, "r", nullptr, (std::size_t)port, async ? rcl::UdpReceiver::Mode::Asynchronous : rcl::UdpReceiver::Mode::Synchronous ) ); }
  flow.reset( new rrl::AudioSignalFlow( *r ) ); auto & in = dynamic_cast<MQ::InputBase &>( flow->externalParameterSendPort( "messageOutput" ) ); int k = 0;
  auto period = [&] { c.note( "period" ); { sched::Region z; flow->process( nullptr, 4, 1, nullptr, 4, 1 ); } while( !in.empty() ) { auto const & s = dynamic_cast<pml::StringParameter const &>( in.front() ); q.got.push_back( std::string( s.str(), s.size() ) ); in.pop(); c.note( "received ", shown( q.got.back() ) ); } q.check( c, false ); };
  for( int op : p.ops ) if( op == 2 ) { c.note( "service thread" ); sched::turn(); } else if( op ) period(); else { q.sent.push_back( content( p.set, k++ ) ); c.note( "datagram ", shown( q.sent.back() ) ); out.send( port, q.sent.back() ); }
  if( p.complete ) { sched::settle(); period(); sched::settle(); period(); q.check( c, true ); }
  c.state( mix( sched::w().points, sched::w().switches ) ); c.note( "shutdown after ", sched::w().points, " scheduling points and ", sched::w().switches, " switches" ); { sched::Region z; flow.reset(); r.reset(); }
}
static void sender( Chooser & c, bool async, int n, int preemptions, bool allocs )
{
  Plan const p = plan( c, n, preemptions > 1, async ); Queue q; Socket in; SignalFlowContext ctx( 4, 48000 ); std::unique_ptr<rcl::UdpSender> r; std::unique_ptr<rrl::AudioSignalFlow> flow;
  if( async ) sched::begin( c, preemptions, allocs ); sched::Guard g;
  { sched::Region z; r.reset( new rcl::UdpSender( ctx, "s", nullptr, 0, "127.0.0.1", (std::size_t)in.port, async ? rcl::UdpSender::Mode::Asynchronous : rcl::UdpSender::Mode::Synchronous ) ); }
  flow.reset( new rrl::AudioSignalFlow( *r ) ); auto & out = dynamic_cast<MQ::OutputBase &>( flow->externalParameterReceivePort( "messageInput" ) ); int k = 0; std::size_t handed = 0;
  auto look = [&] { std::string s; while( in.receive( s ) ) { q.got.push_back( s ); c.note( "received ", shown( s ) ); } if( q.got.size() > handed ) c.fail( "message sent before its period" ); q.check( c, false ); };
  auto period = [&] { c.note( "period" ); handed = q.sent.size(); { sched::Region z; flow->process( nullptr, 4, 1, nullptr, 4, 1 ); } if( !async ) { look(); q.check( c, true ); } else look(); };
  for( int op : p.ops ) if( op == 2 ) { c.note( "service thread" ); sched::turn(); } else if( op ) period(); else { q.sent.push_back( content( p.set, k++ ) ); c.note( "message ", shown( q.sent.back() ) ); out.enqueue( std::unique_ptr<ParameterBase>( new pml::StringParameter( q.sent.back() ) ) ); }
  if( p.complete ) { period(); sched::settle(); look(); q.check( c, true ); }
  c.state( mix( sched::w().points, sched::w().switches ) ); c.note( "shutdown after ", sched::w().points, " scheduling points and ", sched::w().switches, " switches" ); { sched::Region z; flow.reset(); r.reset(); }
}
int main( int argc, char ** argv )
{
  Explorer x( argc, argv ); bool const q = x.quick(); pml::initialiseParameterLibrary();
  x.add( "receiver, synchronous", [q]( Chooser & c ) { receiver( c, false, q ? 6 : 8, 0, false ); }, 4 );
  x.add( "sender, synchronous", [q]( Chooser & c ) { sender( c, false, q ? 6 : 8, 0, false ); }, 4 );
  x.add( "receiver, one preemption", [q]( Chooser & c ) { receiver( c, true, q ? 4 : 6, 1, true ); }, 4 );
  x.add( "sender, one preemption", [q]( Chooser & c ) { sender( c, true, q ? 4 : 6, 1, true ); }, 4 );
  x.add( "receiver, more preemptions", [q]( Chooser & c ) { receiver( c, true, q ? 3 : 4, q ? 2 : 3, true ); }, 2 );
  x.add( "sender, more preemptions", [q]( Chooser & c ) { sender( c, true, q ? 3 : 4, q ? 2 : 3, true ); }, 2 );
  return x.run();
}
