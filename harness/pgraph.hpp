// Nested component graphs whose ports are parameter ports (all protocols, several payloads) or mono audio ports,
// with enumerated wiring and a reference model of what every component observes in every period.
#pragma once
#include "explore.hpp"
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_input.hpp>
#include <libvisr/parameter_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <librrl/audio_signal_flow.hpp>
namespace vp
{
using vx::Chooser;
using namespace visr;
typedef pml::ScalarParameter<int> IntP;
typedef pml::VectorParameter<float> VecP;
inline void put( IntP & p, int v ) { p = IntP( v ); }
inline void put( VecP & p, int v ) { p[ 0 ] = float( v ); }
inline int get( IntP const & p ) { return p.value(); }
inline int get( VecP const & p ) { return int( p[ 0 ] ); }
inline void makeP( IntP & p, int v ) { p = IntP( v ); }
template<class P> struct Mk; 
template<> struct Mk<IntP> { static IntP make( int v ) { return IntP( v ); } };
template<> struct Mk<VecP> { static VecP make( int v ) { VecP p( 1, 0 ); p[ 0 ] = float( v ); return p; } };
inline void putB( ParameterBase & b, int v ) { if( auto p = dynamic_cast<IntP *>( &b ) ) put( *p, v ); else put( dynamic_cast<VecP &>( b ), v ); }
inline int getB( ParameterBase const & b ) { if( auto p = dynamic_cast<IntP const *>( &b ) ) return get( *p ); return get( dynamic_cast<VecP const &>( b ) ); }

// What a receiver observes in one period: (tag, values)
typedef std::vector<int> Seen;
// kinds: D,M,S = double buffering / message queue / shared data of int; d,m,s same of float vector (size 1); x = double buffering of a vector of size 2; A = audio
inline char protoOf( char k ) { return k == 'A' ? 'A' : k == 'x' ? 'D' : char( toupper( k ) ); }
inline bool compatible( char a, char b ) { return a == b; }

struct PortRef { AudioPortBase * a = nullptr; ParameterPortBase * p = nullptr; explicit PortRef( AudioPortBase & x ) : a( &x ) {} explicit PortRef( ParameterPortBase & x ) : p( &x ) {} };
struct InPort { virtual ~InPort() {} virtual Seen read( std::size_t ) = 0; virtual PortRef port() = 0; };
struct OutPort { virtual ~OutPort() {} virtual void send( std::vector<int> const & v, std::size_t period ) = 0; virtual PortRef port() = 0; };
template<class P> struct DbIn : InPort { ParameterInput<pml::DoubleBufferingProtocol, P> p; template<class C> DbIn( char const * n, Component & o, C const & c ) : p( n, o, c ) {}
  Seen read( std::size_t ) override { Seen s{ p.changed() ? 1 : 0, get( p.data() ) }; if( p.changed() ) p.resetChanged(); return s; } PortRef port() override { return PortRef( p ); } };
template<class P> struct MqIn : InPort { ParameterInput<pml::MessageQueueProtocol, P> p; template<class C> MqIn( char const * n, Component & o, C const & c ) : p( n, o, c ) {}
  Seen read( std::size_t ) override { Seen s; while( !p.empty() ) { s.push_back( get( p.front() ) ); p.pop(); } return s; } PortRef port() override { return PortRef( p ); } };
template<class P> struct SdIn : InPort { ParameterInput<pml::SharedDataProtocol, P> p; template<class C> SdIn( char const * n, Component & o, C const & c ) : p( n, o, c ) {}
  Seen read( std::size_t ) override { return Seen{ get( p.data() ) }; } PortRef port() override { return PortRef( p ); } };
struct AuIn : InPort { AudioInput p; AuIn( char const * n, Component & o ) : p( n, o, 1 ) {} Seen read( std::size_t n ) override { Seen s; for( std::size_t k = 0; k < n; ++k ) s.push_back( int( p[ 0 ][ k ] ) ); return s; } PortRef port() override { return PortRef( p ); } };
template<class P> struct DbOut : OutPort { ParameterOutput<pml::DoubleBufferingProtocol, P> p; template<class C> DbOut( char const * n, Component & o, C const & c ) : p( n, o, c ) {}
  void send( std::vector<int> const & v, std::size_t ) override { for( int x : v ) { put( p.data(), x ); p.swapBuffers(); } } PortRef port() override { return PortRef( p ); } };
template<class P> struct MqOut : OutPort { ParameterOutput<pml::MessageQueueProtocol, P> p; template<class C> MqOut( char const * n, Component & o, C const & c ) : p( n, o, c ) {}
  void send( std::vector<int> const & v, std::size_t ) override { for( int x : v ) p.enqueue( Mk<P>::make( x ) ); } PortRef port() override { return PortRef( p ); } };
template<class P> struct SdOut : OutPort { ParameterOutput<pml::SharedDataProtocol, P> p; template<class C> SdOut( char const * n, Component & o, C const & c ) : p( n, o, c ) {}
  void send( std::vector<int> const & v, std::size_t ) override { for( int x : v ) put( p.data(), x ); } PortRef port() override { return PortRef( p ); } };
struct AuOut : OutPort { AudioOutput p; AuOut( char const * n, Component & o ) : p( n, o, 1 ) {} void send( std::vector<int> const & v, std::size_t n ) override { for( std::size_t k = 0; k < n; ++k ) p[ 0 ][ k ] = float( v[ k ] ); } PortRef port() override { return PortRef( p ); } };

inline InPort * mkIn( char k, std::string const & n, Component & o )
{
  pml::EmptyParameterConfig e; pml::VectorParameterConfig v1( 1 ), v2( 2 );
  switch( k ) { case 'D': return new DbIn<IntP>( n.c_str(), o, e ); case 'M': return new MqIn<IntP>( n.c_str(), o, e ); case 'S': return new SdIn<IntP>( n.c_str(), o, e );
    case 'd': return new DbIn<VecP>( n.c_str(), o, v1 ); case 'm': return new MqIn<VecP>( n.c_str(), o, v1 ); case 's': return new SdIn<VecP>( n.c_str(), o, v1 ); case 'x': return new DbIn<VecP>( n.c_str(), o, v2 ); default: return new AuIn( n.c_str(), o ); }
}
inline OutPort * mkOut( char k, std::string const & n, Component & o )
{
  pml::EmptyParameterConfig e; pml::VectorParameterConfig v1( 1 ), v2( 2 );
  switch( k ) { case 'D': return new DbOut<IntP>( n.c_str(), o, e ); case 'M': return new MqOut<IntP>( n.c_str(), o, e ); case 'S': return new SdOut<IntP>( n.c_str(), o, e );
    case 'd': return new DbOut<VecP>( n.c_str(), o, v1 ); case 'm': return new MqOut<VecP>( n.c_str(), o, v1 ); case 's': return new SdOut<VecP>( n.c_str(), o, v1 ); case 'x': return new DbOut<VecP>( n.c_str(), o, v2 ); default: return new AuOut( n.c_str(), o ); }
}

struct Node { std::string name; std::string in, out; std::vector<Node> kids; bool composite = false; };
inline Node atom( std::string n, std::string i, std::string o ) { Node s; s.name = n; s.in = i; s.out = o; return s; }
inline Node box( std::string n, std::string i, std::string o, std::vector<Node> k ) { Node s; s.name = n; s.in = i; s.out = o; s.kids = k; s.composite = true; return s; }

// The behaviour of an atom, shared by component and model: values to send on output `o` of kind k in block b, from all observations.
inline std::vector<int> behave( int id, int o, char k, int b, std::vector<Seen> const & seen, std::size_t period )
{
  long h = 17 * id + 29 * o + 5 * b + 3;
  for( auto & s : seen ) { h = ( h * 31 + 7 * (long)s.size() + 1 ) % 9973; for( int v : s ) h = ( h * 37 + v + 11 ) % 9973; }
  std::vector<int> r;
  char p = protoOf( k );
  if( p == 'A' ) { for( std::size_t i = 0; i < period; ++i ) r.push_back( int( ( h + 13 * (long)i ) % 9973 ) ); return r; }
  int n = b == 0 ? 1 : ( b + id + o ) % 3; // 0, 1 or 2 sends per period; always one in the first
  for( int i = 0; i < n; ++i ) r.push_back( int( ( h + 101 * i ) % 9973 ) );
  return r;
}
inline std::vector<int> hostSends( int port, char k, int b, std::size_t period )
{
  std::vector<int> r;
  if( protoOf( k ) == 'A' ) { for( std::size_t i = 0; i < period; ++i ) r.push_back( int( 1 + 41 * port + 7 * b + 3 * (int)i ) ); return r; }
  int n = b == 0 ? 1 : ( b + port + 1 ) % 3;
  for( int i = 0; i < n; ++i ) r.push_back( 1000 + 100 * port + 10 * b + i );
  return r;
}

struct Rec { int id; std::vector<Seen> seen; };
class Atom : public AtomicComponent
{
public:
  Atom( SignalFlowContext const & ctx, Node const & s, CompositeComponent * parent, int id, bool outFirst, std::vector<Rec> * log )
    : AtomicComponent( ctx, s.name.c_str(), parent ), spec( s ), mId( id ), mLog( log )
  {
    auto mi = [&] { for( std::size_t i = 0; i < s.in.size(); ++i ) in.emplace_back( mkIn( s.in[ i ], "in" + std::to_string( i ), *this ) ); };
    auto mo = [&] { for( std::size_t i = 0; i < s.out.size(); ++i ) out.emplace_back( mkOut( s.out[ i ], "out" + std::to_string( i ), *this ) ); };
    if( outFirst ) { mo(); mi(); } else { mi(); mo(); }
  }
  void process() override
  {
    std::vector<Seen> seen; for( auto & p : in ) seen.push_back( p->read( period() ) );
    mLog->push_back( Rec{ mId, seen } );
    for( std::size_t o = 0; o < out.size(); ++o ) out[ o ]->send( behave( mId, (int)o, spec.out[ o ], block, seen, period() ), period() );
    ++block;
  }
  Node spec; int mId; int block = 0;
  std::vector<std::unique_ptr<InPort>> in; std::vector<std::unique_ptr<OutPort>> out;
private:
  std::vector<Rec> * mLog;
};
class Box : public CompositeComponent
{
public:
  Box( SignalFlowContext const & ctx, Node const & s, CompositeComponent * parent, bool outFirst ) : CompositeComponent( ctx, s.name.c_str(), parent )
  {
    auto mi = [&] { for( std::size_t i = 0; i < s.in.size(); ++i ) in.emplace_back( mkIn( s.in[ i ], "in" + std::to_string( i ), *this ) ); };
    auto mo = [&] { for( std::size_t i = 0; i < s.out.size(); ++i ) out.emplace_back( mkOut( s.out[ i ], "out" + std::to_string( i ), *this ) ); };
    if( outFirst ) { mo(); mi(); } else { mi(); mo(); }
  }
  std::vector<std::unique_ptr<InPort>> in; std::vector<std::unique_ptr<OutPort>> out;
};
struct Ep { int kid, port; bool operator==( Ep const & o ) const { return kid == o.kid && port == o.port; } };
struct Inst
{
  Node spec; int id = 0; std::unique_ptr<Component> comp; Inst * parent = nullptr; int kidIdx = -1;
  std::vector<std::unique_ptr<Inst>> kids;
  std::vector<Ep> sources, receivers; std::string sourceKind, receiverKind;
  std::vector<std::pair<int,int>> link; // receiver -> source
  PortRef inP( int i ) { return spec.composite ? static_cast<Box &>( *comp ).in[ i ]->port() : static_cast<Atom &>( *comp ).in[ i ]->port(); }
  PortRef outP( int i ) { return spec.composite ? static_cast<Box &>( *comp ).out[ i ]->port() : static_cast<Atom &>( *comp ).out[ i ]->port(); }
};
struct Origin { Inst * atom = nullptr; int port = -1; bool bad = false; bool operator<( Origin const & o ) const { return std::tie( atom, port ) < std::tie( o.atom, o.port ); } bool operator==( Origin const & o ) const { return atom == o.atom && port == o.port; } };

struct Graph
{
  std::vector<Rec> log; std::unique_ptr<SignalFlowContext> ctx; std::unique_ptr<Inst> top; std::vector<Inst *> atoms, boxes; bool outFirst; int perm;
  Graph( Node const & s, std::size_t period, bool of, int pm ) : ctx( new SignalFlowContext( period, 48000 ) ), outFirst( of ), perm( pm ) { pml::initialiseParameterLibrary(); top = make( s, nullptr ); }
  ~Graph() { destroy( top.get() ); }
  void destroy( Inst * i ) { for( auto & k : i->kids ) destroy( k.get() ); i->comp.reset(); }
  std::unique_ptr<Inst> make( Node const & s, Inst * parent )
  {
    std::unique_ptr<Inst> i( new Inst ); i->spec = s; i->parent = parent;
    CompositeComponent * pc = parent ? static_cast<CompositeComponent *>( parent->comp.get() ) : nullptr;
    if( !s.composite ) { i->id = s.name[ 0 ] - 'A' + 1; i->comp.reset( new Atom( *ctx, s, pc, i->id, outFirst, &log ) ); atoms.push_back( i.get() ); return i; }
    i->comp.reset( new Box( *ctx, s, pc, outFirst ) ); boxes.push_back( i.get() );
    std::size_t n = s.kids.size(); std::vector<int> order; for( std::size_t k = 0; k < n; ++k ) order.push_back( (int)k );
    for( int k = 0; k < perm; ++k ) std::next_permutation( order.begin(), order.end() );
    i->kids.resize( n );
    for( int k : order ) { i->kids[ k ] = make( s.kids[ k ], i.get() ); i->kids[ k ]->kidIdx = k; }
    for( std::size_t p = 0; p < s.in.size(); ++p ) { i->sources.push_back( Ep{ -1, (int)p } ); i->sourceKind += s.in[ p ]; }
    for( std::size_t k = 0; k < n; ++k ) for( std::size_t p = 0; p < s.kids[ k ].out.size(); ++p ) { i->sources.push_back( Ep{ (int)k, (int)p } ); i->sourceKind += s.kids[ k ].out[ p ]; }
    for( std::size_t k = 0; k < n; ++k ) for( std::size_t p = 0; p < s.kids[ k ].in.size(); ++p ) { i->receivers.push_back( Ep{ (int)k, (int)p } ); i->receiverKind += s.kids[ k ].in[ p ]; }
    for( std::size_t p = 0; p < s.out.size(); ++p ) { i->receivers.push_back( Ep{ -1, (int)p } ); i->receiverKind += s.out[ p ]; }
    return i;
  }
  void connect( Inst & b, int style )
  {
    CompositeComponent & cc = static_cast<CompositeComponent &>( *b.comp );
    auto links = b.link; if( style == 1 ) std::reverse( links.begin(), links.end() );
    for( auto l : links )
    {
      Ep s = b.sources[ l.second ], r = b.receivers[ l.first ];
      PortRef sp = s.kid < 0 ? b.inP( s.port ) : b.kids[ s.kid ]->outP( s.port ); PortRef rp = r.kid < 0 ? b.outP( r.port ) : b.kids[ r.kid ]->inP( r.port );
      bool audio = b.sourceKind[ l.second ] == 'A';
      if( style == 2 )
      {
        std::string sn = s.kid < 0 ? "" : b.kids[ s.kid ]->spec.name, rn = r.kid < 0 ? "this" : b.kids[ r.kid ]->spec.name;
        std::string spn = ( s.kid < 0 ? "in" : "out" ) + std::to_string( s.port ), rpn = ( r.kid < 0 ? "out" : "in" ) + std::to_string( r.port );
        if( audio ) cc.audioConnection( sn.c_str(), spn.c_str(), ChannelList{ 0 }, rn.c_str(), rpn.c_str(), ChannelList{ 0 } );
        else cc.parameterConnection( sn.c_str(), spn.c_str(), rn.c_str(), rpn.c_str() );
      }
      else if( audio ) cc.audioConnection( *sp.a, *rp.a );
      else cc.parameterConnection( *sp.p, *rp.p );
    }
  }
  // All origins (atom output or external input) a receiver is fed from; bad if a closed loop of wires is met.
  void origins( Inst & b, Ep recv, std::vector<Origin> & res, int depth = 0 )
  {
    if( depth > 40 ) { Origin o; o.bad = true; res.push_back( o ); return; }
    int ri = (int)( std::find( b.receivers.begin(), b.receivers.end(), recv ) - b.receivers.begin() );
    for( auto l : b.link ) if( l.first == ri )
    {
      Ep s = b.sources[ l.second ];
      if( s.kid < 0 ) { if( !b.parent ) { Origin o; o.port = s.port; res.push_back( o ); } else origins( *b.parent, Ep{ b.kidIdx, s.port }, res, depth + 1 ); }
      else { Inst & k = *b.kids[ s.kid ]; if( !k.spec.composite ) { Origin o; o.atom = &k; o.port = s.port; res.push_back( o ); } else origins( k, Ep{ -1, s.port }, res, depth + 1 ); }
    }
  }
  Origin origin1( Inst & b, Ep r ) { std::vector<Origin> v; origins( b, r, v ); if( v.size() != 1 || v[ 0 ].bad ) { Origin o; o.bad = true; return o; } return v[ 0 ]; }
  struct Target { Inst * atom; int port; char kind; Inst * box; Ep ep; };
  std::vector<Target> targets() // concrete receivers: atom inputs and external outputs
  {
    std::vector<Target> t;
    for( Inst * a : atoms ) for( std::size_t p = 0; p < a->spec.in.size(); ++p ) t.push_back( Target{ a, (int)p, a->spec.in[ p ], a->parent, Ep{ a->kidIdx, (int)p } } );
    for( std::size_t p = 0; p < top->spec.out.size(); ++p ) t.push_back( Target{ nullptr, (int)p, top->spec.out[ p ], top.get(), Ep{ -1, (int)p } } );
    return t;
  }
  // 0 = malformed, 1 = well-formed, 2 = unspecified (closed wire loop that feeds nothing)
  int valid()
  {
    for( Inst * b : boxes )
    {
      std::vector<int> ru( b->receivers.size(), 0 ), su( b->sources.size(), 0 );
      for( auto l : b->link ) { ++ru[ l.first ]; ++su[ l.second ]; if( !compatible( b->sourceKind[ l.second ], b->receiverKind[ l.first ] ) ) return 0; }
      for( int n : ru ) if( n != 1 ) { if( n == 0 ) return 0; }
      for( std::size_t r = 0; r < ru.size(); ++r ) if( ru[ r ] > 1 && b->receiverKind[ r ] == 'A' ) return 0;
      for( int n : su ) if( n == 0 ) return 0;
    }
    std::map<Origin, int> fan; std::map<Inst *, std::set<Inst *>> deps; int res = 1;
    for( auto & t : targets() )
    {
      std::vector<Origin> v; origins( *t.box, t.ep, v );
      if( v.size() != 1 ) return 0;
      if( v[ 0 ].bad ) return 0;
      ++fan[ v[ 0 ] ];
      if( protoOf( t.kind ) == 'M' && fan[ v[ 0 ] ] > 1 ) return 0;
      if( t.atom && v[ 0 ].atom ) deps[ t.atom ].insert( v[ 0 ].atom );
    }
    std::map<Inst *, int> color; bool ok = true;
    std::function<void( Inst * )> visit = [&]( Inst * a ) { if( color[ a ] == 2 ) return; if( color[ a ] == 1 ) { ok = false; return; } color[ a ] = 1; for( Inst * d : deps[ a ] ) visit( d ); color[ a ] = 2; };
    for( Inst * a : atoms ) visit( a );
    if( !ok ) return 0;
    // several sources on an internal pass-through port that feeds nothing, or a dead loop
    for( Inst * b : boxes ) for( std::size_t r = 0; r < b->receivers.size(); ++r ) { std::vector<Origin> v; origins( *b, b->receivers[ r ], v ); if( v.size() != 1 || v[ 0 ].bad ) res = 2; }
    return res;
  }
  std::vector<Inst *> topo()
  {
    std::vector<Inst *> order; std::set<Inst *> done;
    std::function<void( Inst * )> visit = [&]( Inst * a ) { if( !done.insert( a ).second ) return; for( std::size_t p = 0; p < a->spec.in.size(); ++p ) { Origin o = origin1( *a->parent, Ep{ a->kidIdx, (int)p } ); if( o.atom ) visit( o.atom ); } order.push_back( a ); };
    for( Inst * a : atoms ) visit( a );
    return order;
  }
  std::string describe()
  {
    std::ostringstream s;
    for( Inst * b : boxes )
    {
      s << b->spec.name << "{";
      for( auto l : b->link ) { Ep f = b->sources[ l.second ], t = b->receivers[ l.first ]; s << ( f.kid < 0 ? "in" : b->kids[ f.kid ]->spec.name + ".out" ) << f.port << ":" << b->sourceKind[ l.second ] << "->" << ( t.kid < 0 ? "out" : b->kids[ t.kid ]->spec.name + ".in" ) << t.port << " "; }
      s << "} ";
    }
    return s.str();
  }
};

// Host side of external parameter ports
inline void hostSend( rrl::AudioSignalFlow & f, std::string const & n, char k, std::vector<int> const & v )
{
  auto & o = f.externalParameterReceivePort( n.c_str() );
  switch( protoOf( k ) )
  {
  case 'D': { auto & p = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase &>( o ); for( int x : v ) { putB( p.data(), x ); p.swapBuffers(); } break; }
  case 'M': { auto & p = dynamic_cast<pml::MessageQueueProtocol::OutputBase &>( o ); for( int x : v ) { std::unique_ptr<ParameterBase> b; if( k == 'M' ) b.reset( new IntP( x ) ); else b.reset( new VecP( Mk<VecP>::make( x ) ) ); p.enqueue( std::move( b ) ); } break; }
  case 'S': { auto & p = dynamic_cast<pml::SharedDataProtocol::OutputBase &>( o ); for( int x : v ) putB( p.data(), x ); break; }
  }
}
inline Seen hostRead( rrl::AudioSignalFlow & f, std::string const & n, char k )
{
  auto & o = f.externalParameterSendPort( n.c_str() ); Seen s;
  switch( protoOf( k ) )
  {
  case 'D': { auto & p = dynamic_cast<pml::DoubleBufferingProtocol::InputBase &>( o ); s = Seen{ p.changed() ? 1 : 0, getB( p.data() ) }; if( p.changed() ) p.resetChanged(); break; }
  case 'M': { auto & p = dynamic_cast<pml::MessageQueueProtocol::InputBase &>( o ); while( !p.empty() ) { s.push_back( getB( p.front() ) ); p.pop(); } break; }
  case 'S': { auto & p = dynamic_cast<pml::SharedDataProtocol::InputBase &>( o ); s = Seen{ getB( p.data() ) }; break; }
  }
  return s;
}
inline std::string show( std::vector<Seen> const & v ) { std::string s; for( auto & x : v ) { s += "("; for( int i : x ) s += std::to_string( i ) + " "; s += ")"; } return s; }

// Run blocks and compare everything every component and the host observes with the model.
inline void render( Chooser & c, Graph & g, rrl::AudioSignalFlow & flow, std::size_t period, int blocks )
{
  struct Conn { int value = 0; std::vector<int> q; std::vector<int> audio; std::map<int, int> changed; }; // changed per target index
  std::map<Origin, Conn> conns;
  auto tg = g.targets(); std::vector<Origin> org; for( auto & t : tg ) org.push_back( g.origin1( *t.box, t.ep ) );
  auto order = g.topo();
  std::vector<int> inA, outA; // external audio ports in order of name index
  for( std::size_t p = 0; p < g.top->spec.in.size(); ++p ) if( g.top->spec.in[ p ] == 'A' ) inA.push_back( (int)p );
  for( std::size_t p = 0; p < g.top->spec.out.size(); ++p ) if( g.top->spec.out[ p ] == 'A' ) outA.push_back( (int)p );
  auto send = [&]( Origin o, char k, std::vector<int> const & v ) {
    Conn & cn = conns[ o ];
    if( k == 'A' ) { cn.audio = v; return; }
    for( int x : v ) { cn.value = x; if( protoOf( k ) == 'M' ) cn.q.push_back( x ); for( std::size_t t = 0; t < tg.size(); ++t ) if( org[ t ] == o ) cn.changed[ (int)t ] = 1; }
  };
  auto recv = [&]( std::size_t t ) {
    Conn & cn = conns[ org[ t ] ]; Seen s;
    switch( protoOf( tg[ t ].kind ) ) { case 'A': s = cn.audio; break; case 'D': s = Seen{ cn.changed[ (int)t ], cn.value }; cn.changed[ (int)t ] = 0; break; case 'M': s = cn.q; cn.q.clear(); break; case 'S': s = Seen{ cn.value }; break; }
    return s;
  };
  for( int b = 0; b < blocks; ++b )
  {
    std::vector<std::vector<float>> ib( inA.size(), std::vector<float>( period ) ), ob( outA.size(), std::vector<float>( period, -1.f ) );
    std::vector<float const *> ip( inA.size() ); std::vector<float *> op( outA.size() );
    for( std::size_t p = 0; p < g.top->spec.in.size(); ++p )
    {
      char k = g.top->spec.in[ p ]; auto v = hostSends( (int)p, k, b, period );
      Origin o; o.port = (int)p; send( o, k, v );
      if( k != 'A' ) hostSend( flow, "in" + std::to_string( p ), k, v );
      else { int i = int( std::find( inA.begin(), inA.end(), (int)p ) - inA.begin() ); ib[ i ].assign( v.begin(), v.end() ); ip[ flow.audioCapturePortOffset( flow.audioCapturePortIndex( ( "in" + std::to_string( p ) ).c_str() ) ) ] = ib[ i ].data(); }
    }
    for( std::size_t i = 0; i < outA.size(); ++i ) op[ flow.audioPlaybackPortOffset( flow.audioPlaybackPortIndex( ( "out" + std::to_string( outA[ i ] ) ).c_str() ) ) ] = ob[ i ].data();
    // model
    std::map<int, std::vector<Seen>> expect;
    for( Inst * a : order )
    {
      std::vector<Seen> seen; for( std::size_t t = 0; t < tg.size(); ++t ) if( tg[ t ].atom == a ) seen.push_back( recv( t ) );
      expect[ a->id ] = seen;
      for( std::size_t o = 0; o < a->spec.out.size(); ++o ) { Origin og; og.atom = a; og.port = (int)o; send( og, a->spec.out[ o ], behave( a->id, (int)o, a->spec.out[ o ], b, seen, period ) ); }
    }
    g.log.clear();
    flow.process( ip.data(), op.data() );
    if( g.log.size() != g.atoms.size() ) c.fail( "block ", b, ": ", g.log.size(), " executions, expected ", g.atoms.size(), " in ", g.describe() );
    for( auto & r : g.log )
    {
      auto it = expect.find( r.id );
      if( it == expect.end() ) c.fail( "component executed twice in ", g.describe() );
      if( it->second != r.seen ) c.fail( "block ", b, ": component ", char( 'A' + r.id - 1 ), " observed ", show( r.seen ), " expected ", show( it->second ), " in ", g.describe() );
      expect.erase( it ); c.compared();
    }
    for( std::size_t t = 0; t < tg.size(); ++t ) if( !tg[ t ].atom )
    {
      Seen e = recv( t ), s;
      if( tg[ t ].kind == 'A' ) { int i = int( std::find( outA.begin(), outA.end(), tg[ t ].port ) - outA.begin() ); for( float f : ob[ i ] ) s.push_back( int( f ) ); }
      else s = hostRead( flow, "out" + std::to_string( tg[ t ].port ), tg[ t ].kind );
      if( s != e ) c.fail( "block ", b, ": external output ", tg[ t ].port, " shows ", show( { s } ), " expected ", show( { e } ), " in ", g.describe() );
      c.compared();
    }
  }
}
} // namespace vp
