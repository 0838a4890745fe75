// Nested component graphs with enumerated audio wiring, and their reference semantics.
#pragma once
#include "explore.hpp"
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/channel_list.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <librrl/audio_signal_flow.hpp>
namespace vg
{
using vx::Chooser;
using namespace visr;
typedef std::vector<int> Widths;

// Values stay small integers, exactly representable in float.
inline float atomFunction( int id, int out, std::vector<float> const & in )
{
  long s = 7 * id + 11 * out + 1;
  for( std::size_t i = 0; i < in.size(); ++i ) s += long( in[ i ] ) * long( 2 * i + 3 + id );
  return float( s % 4093 );
}

struct NodeSpec
{
  std::string name;
  Widths in, out;              // port widths
  std::vector<NodeSpec> kids;  // non-empty => composite
  bool composite = false;
  std::string inType, outType; // "" = float, "d" = double
};
inline NodeSpec atom( std::string n, Widths i, Widths o, std::string it = "", std::string ot = "" ) { NodeSpec s; s.name = n; s.in = i; s.out = o; s.inType = it; s.outType = ot; return s; }
inline NodeSpec box( std::string n, Widths i, Widths o, std::vector<NodeSpec> k, std::string it = "", std::string ot = "" ) { NodeSpec s; s.name = n; s.in = i; s.out = o; s.kids = k; s.composite = true; s.inType = it; s.outType = ot; return s; }
inline int total( Widths const & w ) { int t = 0; for( int x : w ) t += x; return t; }

struct Runtime; // per execution bookkeeping
class Atom : public AtomicComponent
{
public:
  Atom( SignalFlowContext const & ctx, NodeSpec const & s, CompositeComponent * parent, int id, bool outFirst, std::vector<int> * log )
    : AtomicComponent( ctx, s.name.c_str(), parent ), spec( s ), mId( id ), mLog( log )
  {
    auto mkIn = [&] { for( std::size_t p = 0; p < s.in.size(); ++p ) { std::string n = "in" + std::to_string( p ); if( s.inType == "d" ) ind.emplace_back( new AudioInputT<double>( n.c_str(), *this, s.in[ p ] ) ); else inf.emplace_back( new AudioInput( n.c_str(), *this, s.in[ p ] ) ); } };
    auto mkOut = [&] { for( std::size_t p = 0; p < s.out.size(); ++p ) { std::string n = "out" + std::to_string( p ); if( s.outType == "d" ) outd.emplace_back( new AudioOutputT<double>( n.c_str(), *this, s.out[ p ] ) ); else outf.emplace_back( new AudioOutput( n.c_str(), *this, s.out[ p ] ) ); } };
    if( outFirst ) { mkOut(); mkIn(); } else { mkIn(); mkOut(); }
  }
  void process() override
  {
    mLog->push_back( mId );
    std::size_t const n = period();
    for( std::size_t k = 0; k < n; ++k )
    {
      std::vector<float> x;
      for( auto & p : inf ) for( std::size_t ch = 0; ch < p->width(); ++ch ) x.push_back( ( *p )[ ch ][ k ] );
      for( auto & p : ind ) for( std::size_t ch = 0; ch < p->width(); ++ch ) x.push_back( (float)( *p )[ ch ][ k ] );
      int o = 0;
      for( auto & p : outf ) for( std::size_t ch = 0; ch < p->width(); ++ch ) ( *p )[ ch ][ k ] = atomFunction( mId, o++, x );
      for( auto & p : outd ) for( std::size_t ch = 0; ch < p->width(); ++ch ) ( *p )[ ch ][ k ] = atomFunction( mId, o++, x );
    }
  }
  NodeSpec spec;
  int mId;
private:
  std::vector<int> * mLog;
  std::vector<std::unique_ptr<AudioInput>> inf;
  std::vector<std::unique_ptr<AudioInputT<double>>> ind;
  std::vector<std::unique_ptr<AudioOutput>> outf;
  std::vector<std::unique_ptr<AudioOutputT<double>>> outd;
};
class Box : public CompositeComponent
{
public:
  Box( SignalFlowContext const & ctx, NodeSpec const & s, CompositeComponent * parent, bool outFirst ) : CompositeComponent( ctx, s.name.c_str(), parent )
  {
    auto mkIn = [&] { for( std::size_t p = 0; p < s.in.size(); ++p ) { std::string n = "in" + std::to_string( p ); if( s.inType == "d" ) in.emplace_back( new AudioInputT<double>( n.c_str(), *this, s.in[ p ] ) ); else in.emplace_back( new AudioInput( n.c_str(), *this, s.in[ p ] ) ); } };
    auto mkOut = [&] { for( std::size_t p = 0; p < s.out.size(); ++p ) { std::string n = "out" + std::to_string( p ); if( s.outType == "d" ) out.emplace_back( new AudioOutputT<double>( n.c_str(), *this, s.out[ p ] ) ); else out.emplace_back( new AudioOutput( n.c_str(), *this, s.out[ p ] ) ); } };
    if( outFirst ) { mkOut(); mkIn(); } else { mkIn(); mkOut(); }
  }
  std::vector<std::unique_ptr<AudioPortBase>> in, out;
};

// Channel address inside a composite: kid (-1 = the composite itself), port, channel
struct Chan
{
  int kid, port, ch;
  bool operator==( Chan const & o ) const { return kid == o.kid && port == o.port && ch == o.ch; }
  bool operator<( Chan const & o ) const { return std::tie( kid, port, ch ) < std::tie( o.kid, o.port, o.ch ); }
};
struct Wire { Chan from, to; };

struct Inst
{
  NodeSpec spec;
  int id = 0; // atom id
  std::unique_ptr<Component> comp;
  std::vector<std::unique_ptr<Inst>> kids;
  Inst * parent = nullptr; int kidIdx = -1;
  std::vector<Chan> sources, receivers;
  std::vector<std::string> sourceType, receiverType;
  std::vector<std::pair<int,int>> link; // receiver index -> source index (pairs, so that faults can be expressed)
  AudioPortBase & port( bool input, int p ) { return comp->audioPort( ( input ? "in" : "out" ) + std::to_string( p ) ); }
};

struct Graph
{
  std::vector<int> log;
  std::unique_ptr<Inst> top;
  std::vector<Inst *> atoms, boxes;
  std::unique_ptr<SignalFlowContext> ctx;
  int nextId = 1;
  bool outFirst = false; int perm = 0;

  static void channels( Widths const & w, int kid, std::vector<Chan> & v ) { for( std::size_t p = 0; p < w.size(); ++p ) for( int c = 0; c < w[ p ]; ++c ) v.push_back( Chan{ kid, (int)p, c } ); }
  std::unique_ptr<Inst> make( NodeSpec const & s, Inst * parent )
  {
    std::unique_ptr<Inst> i( new Inst ); i->spec = s; i->parent = parent;
    CompositeComponent * pc = parent ? static_cast<CompositeComponent *>( parent->comp.get() ) : nullptr;
    if( !s.composite )
    {
      i->id = s.name[ 0 ] - 'A' + 1; // independent of construction order
      i->comp.reset( new Atom( *ctx, s, pc, i->id, outFirst, &log ) );
      atoms.push_back( i.get() );
      return i;
    }
    i->comp.reset( new Box( *ctx, s, pc, outFirst ) );
    boxes.push_back( i.get() );
    std::size_t n = s.kids.size();
    std::vector<int> order; for( std::size_t k = 0; k < n; ++k ) order.push_back( (int)k );
    for( int k = 0; k < perm; ++k ) std::next_permutation( order.begin(), order.end() );
    i->kids.resize( n );
    for( int k : order ) { i->kids[ k ] = make( s.kids[ k ], i.get() ); i->kids[ k ]->kidIdx = k; }
    channels( s.in, -1, i->sources ); i->sourceType.assign( i->sources.size(), s.inType );
    for( std::size_t k = 0; k < n; ++k ) { channels( s.kids[ k ].out, (int)k, i->sources ); i->sourceType.resize( i->sources.size(), s.kids[ k ].outType ); }
    for( std::size_t k = 0; k < n; ++k ) { channels( s.kids[ k ].in, (int)k, i->receivers ); i->receiverType.resize( i->receivers.size(), s.kids[ k ].inType ); }
    channels( s.out, -1, i->receivers ); i->receiverType.resize( i->receivers.size(), s.outType );
    return i;
  }
  Graph( NodeSpec const & s, std::size_t period, bool outFirst_, int perm_ ) : ctx( new SignalFlowContext( period, 48000 ) ), outFirst( outFirst_ ), perm( perm_ ) { top = make( s, nullptr ); }
  ~Graph() { destroy( top.get() ); }
  void destroy( Inst * i ) { for( auto & k : i->kids ) destroy( k.get() ); i->comp.reset(); }

  AudioPortBase & srcPort( Inst & b, Chan c ) { return c.kid < 0 ? b.port( true, c.port ) : b.kids[ c.kid ]->port( false, c.port ); }
  AudioPortBase & dstPort( Inst & b, Chan c ) { return c.kid < 0 ? b.port( false, c.port ) : b.kids[ c.kid ]->port( true, c.port ); }

  // Declare the connections of one box on the real component. style 0: one call per channel, 1: grouped per
  // port pair in reverse order, 2: grouped, by name.
  void connect( Inst & b, int style )
  {
    CompositeComponent & cc = static_cast<CompositeComponent &>( *b.comp );
    if( style == 0 )
    {
      for( auto l : b.link ) { Chan s = b.sources[ l.second ], r = b.receivers[ l.first ]; cc.audioConnection( srcPort( b, s ), ChannelList{ std::size_t( s.ch ) }, dstPort( b, r ), ChannelList{ std::size_t( r.ch ) } ); }
      return;
    }
    std::vector<std::pair<std::pair<Chan, Chan>, std::pair<std::vector<std::size_t>, std::vector<std::size_t>>>> g;
    auto links = b.link; if( style == 1 ) std::reverse( links.begin(), links.end() );
    for( auto l : links )
    {
      Chan s = b.sources[ l.second ], r = b.receivers[ l.first ]; int sc = s.ch, rc = r.ch; s.ch = r.ch = 0;
      auto it = std::find_if( g.begin(), g.end(), [&]( decltype( g[ 0 ] ) & e ) { return e.first.first == s && e.first.second == r; } );
      if( it == g.end() ) { g.push_back( { { s, r }, {} } ); it = g.end() - 1; }
      it->second.first.push_back( sc ); it->second.second.push_back( rc );
    }
    for( auto & e : g )
    {
      AudioPortBase & sp = srcPort( b, e.first.first ); AudioPortBase & dp = dstPort( b, e.first.second );
      ChannelList sl( e.second.first ), rl( e.second.second );
      if( style == 1 )
      {
        // whole-port identity connections through the short overload
        bool ident = sp.width() == sl.size() && dp.width() == rl.size();
        for( std::size_t i = 0; ident && i < sl.size(); ++i ) ident = sl[ i ] == i && rl[ i ] == i;
        if( ident ) cc.audioConnection( sp, dp ); else cc.audioConnection( sp, sl, dp, rl );
      }
      else
      {
        std::string sn = e.first.first.kid < 0 ? "this" : b.kids[ e.first.first.kid ]->spec.name, dn = e.first.second.kid < 0 ? "" : b.kids[ e.first.second.kid ]->spec.name;
        cc.audioConnection( sn.c_str(), ( ( e.first.first.kid < 0 ? "in" : "out" ) + std::to_string( e.first.first.port ) ).c_str(), sl, dn.c_str(), ( ( e.first.second.kid < 0 ? "out" : "in" ) + std::to_string( e.first.second.port ) ).c_str(), rl );
      }
    }
  }
  // Resolve the source of a receiver channel to (atom, output index) or external input index.
  struct Origin { Inst * atom = nullptr; int idx = -1; bool loop = false; };
  static int flat( Widths const & w, int port, int ch ) { int o = 0; for( int p = 0; p < port; ++p ) o += w[ p ]; return o + ch; }
  Origin resolve( Inst & b, Chan recv, int depth = 0 )
  {
    Origin o;
    if( depth > 64 ) { o.loop = true; return o; }
    int ri = (int)( std::find( b.receivers.begin(), b.receivers.end(), recv ) - b.receivers.begin() );
    int si = -1; for( auto l : b.link ) if( l.first == ri ) { si = l.second; break; }
    if( si < 0 ) { o.loop = true; return o; }
    Chan s = b.sources[ si ];
    if( s.kid < 0 )
    {
      if( !b.parent ) { o.idx = flat( b.spec.in, s.port, s.ch ); return o; }
      return resolve( *b.parent, Chan{ b.kidIdx, s.port, s.ch }, depth + 1 );
    }
    Inst & k = *b.kids[ s.kid ];
    if( !k.spec.composite ) { o.atom = &k; o.idx = flat( k.spec.out, s.port, s.ch ); return o; }
    return resolve( k, Chan{ -1, s.port, s.ch }, depth + 1 );
  }
  std::vector<Origin> atomInputs( Inst & a )
  {
    std::vector<Origin> v;
    for( std::size_t p = 0; p < a.spec.in.size(); ++p ) for( int c = 0; c < a.spec.in[ p ]; ++c ) v.push_back( resolve( *a.parent, Chan{ a.kidIdx, (int)p, c } ) );
    return v;
  }
  // true if every resolvable wire loop / dependency cycle is absent
  bool acyclic()
  {
    std::map<Inst *, int> color; bool ok = true;
    std::function<void( Inst * )> visit = [&]( Inst * a ) {
      if( !ok || color[ a ] == 2 ) return;
      if( color[ a ] == 1 ) { ok = false; return; }
      color[ a ] = 1;
      for( auto & o : atomInputs( *a ) ) { if( o.loop ) { ok = false; return; } if( o.atom ) visit( o.atom ); }
      color[ a ] = 2;
    };
    for( Inst * a : atoms ) visit( a );
    // wire loops that do not reach an atom input
    for( Inst * b : boxes ) for( Chan const & r : b->receivers ) if( resolve( *b, r ).loop ) ok = false;
    return ok;
  }
  bool allSourcesUsed() { for( Inst * b : boxes ) { std::vector<bool> u( b->sources.size(), false ); for( auto l : b->link ) u[ l.second ] = true; for( bool x : u ) if( !x ) return false; } return true; }
  // Reference evaluation for one sample instant.
  float eval( Origin const & o, std::vector<float> const & ext, std::map<std::pair<Inst *, int>, float> & memo )
  {
    if( !o.atom ) return ext[ o.idx ];
    auto key = std::make_pair( o.atom, o.idx );
    auto it = memo.find( key ); if( it != memo.end() ) return it->second;
    std::vector<float> x; for( auto & i : atomInputs( *o.atom ) ) x.push_back( eval( i, ext, memo ) );
    float v = atomFunction( o.atom->id, o.idx, x );
    memo[ key ] = v; return v;
  }
  std::vector<Origin> outputs()
  {
    std::vector<Origin> v; for( std::size_t p = 0; p < top->spec.out.size(); ++p ) for( int c = 0; c < top->spec.out[ p ]; ++c ) v.push_back( resolve( *top, Chan{ -1, (int)p, c } ) );
    return v;
  }
  std::string describe()
  {
    std::ostringstream s;
    for( Inst * b : boxes )
    {
      s << b->spec.name << "{";
      for( auto l : b->link )
      {
        Chan f = b->sources[ l.second ], t = b->receivers[ l.first ];
        s << ( f.kid < 0 ? "in" : b->kids[ f.kid ]->spec.name + ".out" ) << f.port << "[" << f.ch << "]->" << ( t.kid < 0 ? "out" : b->kids[ t.kid ]->spec.name + ".in" ) << t.port << "[" << t.ch << "] ";
      }
      s << "} ";
    }
    return s.str();
  }
};

inline float inputSample( std::size_t block, std::size_t ch, std::size_t k ) { return float( ( 37 * block + 101 * ch + 13 * k + 5 ) % 997 ); }
} // namespace vg
