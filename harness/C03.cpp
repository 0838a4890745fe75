//! LIBS: visr rrl rbbl efl pml objectmodel panning kissfft
//! LINK: -lboost_filesystem -lboost_system -lsndfile
#include "graph.hpp"
#include "pgraph.hpp"
using namespace visr;
using vx::Chooser;

// ---- audio: every relation between source and receiver channels with 0, 1 or 2 sources per receiver --------------
static int audioValid( vg::Graph & g )
{
  for( vg::Inst * b : g.boxes )
  {
    std::vector<int> ru( b->receivers.size(), 0 ), su( b->sources.size(), 0 );
    for( auto l : b->link ) { ++ru[ l.first ]; ++su[ l.second ]; if( b->sourceType[ l.second ] != b->receiverType[ l.first ] ) return 0; }
    for( int n : ru ) if( n != 1 ) return 0;
    for( int n : su ) if( n < 1 ) return 0;
  }
  // dependency cycles / loops feeding a component or an external output
  std::map<vg::Inst *, int> color; bool ok = true;
  std::function<void( vg::Inst * )> visit = [&]( vg::Inst * a ) {
    if( !ok || color[ a ] == 2 ) return;
    if( color[ a ] == 1 ) { ok = false; return; }
    color[ a ] = 1; for( auto & o : g.atomInputs( *a ) ) { if( o.loop ) { ok = false; return; } if( o.atom ) visit( o.atom ); } color[ a ] = 2; };
  for( vg::Inst * a : g.atoms ) visit( a );
  for( auto & o : g.outputs() ) if( o.loop ) ok = false;
  if( !ok ) return 0;
  for( vg::Inst * b : g.boxes ) for( vg::Chan const & r : b->receivers ) if( g.resolve( *b, r ).loop ) return 2; // closed loop that feeds nothing: unspecified
  return 1;
}
template<class G> static void verdict( Chooser & c, G & g, Component & top, int expect, bool connectThrew )
{
  bool rejected = connectThrew; std::string what;
  std::unique_ptr<rrl::AudioSignalFlow> flow;
  vx::Mute m;
  if( !connectThrew ) { try { flow.reset( new rrl::AudioSignalFlow( top ) ); } catch( std::exception const & e ) { rejected = true; what = e.what(); } }
  c.compared();
  if( !g.log.empty() ) c.fail( "components executed during construction" );
  if( expect == 2 ) return;
  if( rejected && expect == 1 ) c.fail( "well-formed flow rejected (", what, "): ", g.describe() );
  if( !rejected && expect == 0 ) c.fail( "malformed flow accepted: ", g.describe() );
  if( rejected && !connectThrew )
  {
    // the verdict does not depend on having been asked before
    bool again = false; try { rrl::AudioSignalFlow f2( top ); } catch( std::exception const & ) { again = true; }
    if( !again ) c.fail( "malformed flow accepted at the second attempt: ", g.describe() );
    if( !g.log.empty() ) c.fail( "components executed during construction" );
  }
}
static void audioFaults( Chooser & c, vg::NodeSpec const & spec, int maxSrc, int anomalies )
{
  int style = c.choose( 3, "style" );
  vg::Graph g( spec, 4, false, 0 );
  int left = anomalies;
  for( vg::Inst * b : g.boxes )
    for( std::size_t r = 0; r < b->receivers.size(); ++r )
    {
      int n = (int)b->sources.size();
      // one source of any kind; with anomalies left: none, or two different ones
      int opts = n + ( left > 0 ? 1 + ( maxSrc > 1 ? n * ( n - 1 ) / 2 : 0 ) : 0 );
      int k = c.choose( opts, "sources" );
      if( k < n ) b->link.push_back( { (int)r, k } );
      else if( k == n ) --left;
      else
      {
        --left; int idx = k - n - 1, a = 0, d = 1;
        while( idx-- ) { if( ++d >= n ) { ++a; d = a + 1; } }
        b->link.push_back( { (int)r, a } ); b->link.push_back( { (int)r, d } );
      }
    }
  int e = audioValid( g );
  c.note( "flow ", g.describe(), " expect ", e == 1 ? "accepted" : e == 0 ? "rejected" : "unspecified" );
  bool threw = false;
  for( vg::Inst * b : g.boxes ) try { g.connect( *b, style ); } catch( std::exception const & ) { threw = true; }
  verdict( c, g, *g.top->comp, e, threw );
  c.state( g.describe() );
}
// ---- parameters and audio mixed ---------------------------------------------------------------------------------
static void paramFaults( Chooser & c, vp::Node const & spec, int anomalies )
{
  int style = c.choose( 3, "style" );
  vp::Graph g( spec, 4, false, 0 );
  int left = anomalies;
  for( vp::Inst * b : g.boxes )
    for( std::size_t r = 0; r < b->receivers.size(); ++r )
    {
      bool audio = b->receiverKind[ r ] == 'A'; std::vector<int> same, other;
      for( std::size_t s = 0; s < b->sources.size(); ++s ) if( ( b->sourceKind[ s ] == 'A' ) == audio ) ( b->sourceKind[ s ] == b->receiverKind[ r ] ? same : other ).push_back( (int)s );
      std::vector<std::vector<int>> opt; for( int s : same ) opt.push_back( { s } );
      std::size_t good = opt.size();
      if( left > 0 )
      {
        opt.push_back( {} ); for( int s : other ) opt.push_back( { s } );
        for( std::size_t i = 0; i < same.size(); ++i ) for( std::size_t j = i + 1; j < same.size(); ++j ) opt.push_back( { same[ i ], same[ j ] } );
      }
      if( opt.empty() ) return;
      int k = c.choose( (int)opt.size(), "sources" ); if( std::size_t( k ) >= good ) --left;
      for( int s : opt[ k ] ) b->link.push_back( { (int)r, s } );
    }
  int e = g.valid();
  c.note( "flow ", g.describe(), " expect ", e == 1 ? "accepted" : e == 0 ? "rejected" : "unspecified" );
  bool threw = false;
  for( vp::Inst * b : g.boxes ) try { g.connect( *b, style ); } catch( std::exception const & ) { threw = true; }
  verdict( c, g, *g.top->comp, e, threw );
  c.state( g.describe() );
}
// ---- calls naming things that do not exist ----------------------------------------------------------------------
static void apiFaults( Chooser & c )
{
  pml::initialiseParameterLibrary();
  SignalFlowContext ctx( 4, 48000 ); std::vector<int> log; std::vector<vp::Rec> plog;
  vg::NodeSpec ts = vg::box( "top", { 2 }, { 2 }, {} ), bs = vg::box( "X", { 2 }, { 2 }, {} ), as = vg::atom( "A", { 2 }, { 2 } );
  vg::Box top( ctx, ts, nullptr, false ), X( ctx, bs, &top, false ); vg::Atom A( ctx, as, &X, 1, false, &log ), B( ctx, vg::atom( "B", { 2 }, { 2 } ), &top, 2, false, &log );
  vg::Box other( ctx, vg::box( "other", { 2 }, { 2 }, {} ), nullptr, false ); vg::Atom O( ctx, vg::atom( "O", { 2 }, { 2 } ), &other, 3, false, &log );
  auto P = []( Component & k, char const * n ) -> AudioPortBase & { return k.audioPort( n ); };
  ChannelList all{ 0, 1 };
  // a complete, valid flow: in -> X -> B -> out, with A inside X
  auto good = [&]( int skip ) {
    X.audioConnection( P( X, "in0" ), P( A, "in0" ) ); X.audioConnection( P( A, "out0" ), P( X, "out0" ) );
    if( skip != 0 ) top.audioConnection( P( top, "in0" ), P( X, "in0" ) );
    if( skip != 1 ) top.audioConnection( P( X, "out0" ), P( B, "in0" ) );
    if( skip != 2 ) top.audioConnection( P( B, "out0" ), P( top, "out0" ) );
  };
  struct Call { char const * what; std::function<void()> f; bool bad; };
  std::vector<Call> calls{
    { "channel index beyond send port", [&] { top.audioConnection( P( X, "out0" ), ChannelList{ 0, 2 }, P( B, "in0" ), all ); }, true },
    { "channel index beyond receive port", [&] { top.audioConnection( P( X, "out0" ), all, P( B, "in0" ), ChannelList{ 0, 5 } ); }, true },
    { "list lengths differ", [&] { top.audioConnection( P( X, "out0" ), all, P( B, "in0" ), ChannelList{ 0 } ); }, true },
    { "send index beyond port (by name)", [&] { top.audioConnection( "X", "out0", ChannelList{ 0, 2 }, "B", "in0", all ); }, true },
    { "receive index beyond port (by name)", [&] { top.audioConnection( "X", "out0", all, "B", "in0", ChannelList{ 0, 2 } ); }, true },
    { "list lengths differ (by name)", [&] { top.audioConnection( "X", "out0", all, "B", "in0", ChannelList{ 1 } ); }, true },
    { "unknown component", [&] { top.audioConnection( "Y", "out0", all, "B", "in0", all ); }, true },
    { "unknown receiving component", [&] { top.audioConnection( "X", "out0", all, "Z", "in0", all ); }, true },
    { "unknown send port", [&] { top.audioConnection( "X", "nope", all, "B", "in0", all ); }, true },
    { "unknown receive port", [&] { top.audioConnection( "X", "out0", all, "B", "nope", all ); }, true },
    { "reversed direction", [&] { top.audioConnection( P( B, "in0" ), P( X, "out0" ) ); }, true },
    { "input to input", [&] { top.audioConnection( P( X, "in0" ), P( B, "in0" ) ); }, true },
    { "output to output", [&] { top.audioConnection( P( X, "out0" ), P( B, "out0" ) ); }, true },
    { "reversed direction (by name)", [&] { top.audioConnection( "B", "in0", all, "X", "out0", all ); }, true },
    { "own output as source", [&] { top.audioConnection( P( top, "out0" ), P( B, "in0" ) ); }, true },
    { "port of a grandchild as source", [&] { top.audioConnection( P( A, "out0" ), P( B, "in0" ) ); }, true },
    { "port of a grandchild as receiver", [&] { top.audioConnection( P( X, "out0" ), P( A, "in0" ) ); }, true },
    { "port of an unrelated flow as source", [&] { top.audioConnection( P( O, "out0" ), P( B, "in0" ) ); }, true },
    { "port of an unrelated flow as receiver", [&] { top.audioConnection( P( X, "out0" ), P( O, "in0" ) ); }, true },
    { "port of another top level", [&] { top.audioConnection( P( other, "in0" ), P( B, "in0" ) ); }, true },
    { "connection made in the wrong composite", [&] { X.audioConnection( P( X, "out0" ), P( B, "in0" ) ); }, true },
    { "valid by port", [&] { top.audioConnection( P( X, "out0" ), P( B, "in0" ) ); }, false },
    { "valid by name", [&] { top.audioConnection( "X", "out0", all, "B", "in0", all ); }, false },
    { "valid in two parts", [&] { top.audioConnection( P( X, "out0" ), ChannelList{ 1 }, P( B, "in0" ), ChannelList{ 0 } ); top.audioConnection( P( X, "out0" ), ChannelList{ 0 }, P( B, "in0" ), ChannelList{ 1 } ); }, false },
    { "empty connection adds nothing", [&] { top.audioConnection( P( X, "out0" ), ChannelList{}, P( B, "in0" ), ChannelList{} ); top.audioConnection( P( X, "out0" ), P( B, "in0" ) ); }, false } };
  int k = c.choose( (int)calls.size(), "call" ); bool extra = c.flag( "in addition to a complete flow" );
  if( extra && !calls[ k ].bad ) return;
  c.note( calls[ k ].what, extra ? " (added to a complete flow)" : "" );
  good( extra ? -1 : 1 );
  bool threw = vx::throws( calls[ k ].f );
  vx::Mute m;
  bool rej = vx::throws( [&] { rrl::AudioSignalFlow f( top ); } );
  if( calls[ k ].bad && !threw && !rej ) c.fail( calls[ k ].what, ": accepted" );
  if( !calls[ k ].bad && ( threw || rej ) ) c.fail( calls[ k ].what, ": rejected" );
  // a call that was refused leaves the flow as it was
  if( calls[ k ].bad && threw && ( rej == extra ) ) c.fail( calls[ k ].what, ": refused call changed the flow" );
  if( calls[ k ].bad && threw && !extra )
  {
    top.audioConnection( P( X, "out0" ), P( B, "in0" ) );
    if( vx::throws( [&] { rrl::AudioSignalFlow f( top ); } ) ) c.fail( calls[ k ].what, ": flow unusable after the refused call" );
  }
  c.compared( 2 ); c.state( uint64_t( k * 2 + extra ) );
}
static void paramApiFaults( Chooser & c )
{
  pml::initialiseParameterLibrary();
  SignalFlowContext ctx( 4, 48000 ); std::vector<vp::Rec> log;
  vp::Box top( ctx, vp::box( "top", "D", "D", {} ), nullptr, false ), X( ctx, vp::box( "X", "D", "D", {} ), &top, false );
  vp::Atom A( ctx, vp::atom( "A", "D", "D" ), &X, 1, false, &log ), B( ctx, vp::atom( "B", "D", "D" ), &top, 2, false, &log );
  vp::Box other( ctx, vp::box( "other", "D", "D", {} ), nullptr, false ); vp::Atom O( ctx, vp::atom( "O", "D", "D" ), &other, 3, false, &log );
  auto P = []( Component & k, char const * n ) -> ParameterPortBase & { return k.parameterPort( n ); };
  auto good = [&]( int skip ) {
    X.parameterConnection( P( X, "in0" ), P( A, "in0" ) ); X.parameterConnection( P( A, "out0" ), P( X, "out0" ) );
    top.parameterConnection( P( top, "in0" ), P( X, "in0" ) ); if( skip != 1 ) top.parameterConnection( P( X, "out0" ), P( B, "in0" ) ); top.parameterConnection( P( B, "out0" ), P( top, "out0" ) );
  };
  struct Call { char const * what; std::function<void()> f; bool bad; };
  std::vector<Call> calls{
    { "unknown component", [&] { top.parameterConnection( "Y", "out0", "B", "in0" ); }, true },
    { "unknown receiving component", [&] { top.parameterConnection( "X", "out0", "Z", "in0" ); }, true },
    { "unknown send port", [&] { top.parameterConnection( "X", "nope", "B", "in0" ); }, true },
    { "unknown receive port", [&] { top.parameterConnection( "X", "out0", "B", "nope" ); }, true },
    { "reversed direction", [&] { top.parameterConnection( P( B, "in0" ), P( X, "out0" ) ); }, true },
    { "reversed direction (by name)", [&] { top.parameterConnection( "B", "in0", "X", "out0" ); }, true },
    { "input to input", [&] { top.parameterConnection( P( X, "in0" ), P( B, "in0" ) ); }, true },
    { "output to output", [&] { top.parameterConnection( P( X, "out0" ), P( B, "out0" ) ); }, true },
    { "own output as source", [&] { top.parameterConnection( P( top, "out0" ), P( B, "in0" ) ); }, true },
    { "port of a grandchild as source", [&] { top.parameterConnection( P( A, "out0" ), P( B, "in0" ) ); }, true },
    { "port of a grandchild as receiver", [&] { top.parameterConnection( P( X, "out0" ), P( A, "in0" ) ); }, true },
    { "port of an unrelated flow", [&] { top.parameterConnection( P( O, "out0" ), P( B, "in0" ) ); }, true },
    { "port of an unrelated flow as receiver", [&] { top.parameterConnection( P( X, "out0" ), P( O, "in0" ) ); }, true },
    { "connection made in the wrong composite", [&] { X.parameterConnection( P( X, "out0" ), P( B, "in0" ) ); }, true },
    { "valid by port", [&] { top.parameterConnection( P( X, "out0" ), P( B, "in0" ) ); }, false },
    { "valid by name", [&] { top.parameterConnection( "X", "out0", "B", "in0" ); }, false } };
  int k = c.choose( (int)calls.size(), "call" ); bool extra = c.flag( "in addition to a complete flow" );
  if( extra && !calls[ k ].bad ) return;
  c.note( calls[ k ].what, extra ? " (added to a complete flow)" : "" );
  good( extra ? -1 : 1 );
  bool threw = vx::throws( calls[ k ].f );
  vx::Mute m;
  bool rej = vx::throws( [&] { rrl::AudioSignalFlow f( top ); } );
  if( calls[ k ].bad && !threw && !rej ) c.fail( calls[ k ].what, ": accepted" );
  if( !calls[ k ].bad && ( threw || rej ) ) c.fail( calls[ k ].what, ": rejected" );
  if( calls[ k ].bad && threw && ( rej == extra ) ) c.fail( calls[ k ].what, ": refused call changed the flow" );
  c.compared( 2 ); c.state( uint64_t( 1000 + k * 2 + extra ) );
}
// names: siblings and ports must be distinguishable, port names unique within a component
static void names( Chooser & c )
{
  SignalFlowContext ctx( 4, 48000 ); std::vector<int> log;
  vg::Box top( ctx, vg::box( "top", { 1 }, { 1 }, {} ), nullptr, false );
  std::vector<std::string> n{ "A", "B", "AB", "" }; std::string a = c.pick( n ), b = c.pick( n );
  vx::Mute m;
  std::unique_ptr<vg::Atom> x, y;
  bool t1 = vx::throws( [&] { x.reset( new vg::Atom( ctx, vg::atom( a, { 1 }, { 1 } ), &top, 1, false, &log ) ); } );
  bool t2 = vx::throws( [&] { y.reset( new vg::Atom( ctx, vg::atom( b, { 1 }, { 1 } ), &top, 2, false, &log ) ); } );
  c.note( "siblings '", a, "' and '", b, "'" );
  if( a != "" && t1 ) c.fail( "component name rejected" );
  if( b != "" && b != a && t2 ) c.fail( "component name rejected" );
  if( a == b && a != "" && !t2 ) c.fail( "duplicate component name accepted" );
  c.compared(); c.state( a + "/" + b );
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool q = x.quick();
  using vg::atom; using vg::box;
  x.add( "api", apiFaults, 1 ); x.add( "api_param", paramApiFaults, 1 ); x.add( "names", names, 1 );
  auto A = [&]( std::string n, vg::NodeSpec s, int an ) { x.add( n, [s, an]( Chooser & c ) { audioFaults( c, s, 2, an ); }, 3 ); };
  A( "wires", box( "top", { 2 }, { 2 }, {} ), 2 );
  A( "one", box( "top", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 } ) } ), 2 );
  A( "two", box( "top", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 } ), atom( "B", { 1 }, { 1 } ) } ), 3 );
  A( "three", box( "top", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 } ), atom( "B", { 1 }, { 1 } ), atom( "C", { 1 }, { 1 } ) } ), q ? 1 : 4 );
  A( "wide", box( "top", { 2 }, { 1 }, { atom( "A", { 2 }, { 1 } ) } ), 3 );
  A( "nested", box( "top", { 1 }, { 1 }, { box( "X", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 } ) } ), atom( "B", { 1 }, { 1 } ) } ), q ? 2 : 5 );
  A( "nested_wide", box( "top", { 1 }, { 1 }, { box( "X", { 2 }, { 2 }, { atom( "A", { 1 }, { 1 } ) } ) } ), q ? 2 : 4 );
  A( "nested_twice", box( "top", { 1 }, { 1 }, { box( "X", { 1 }, { 1 }, { box( "Y", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 } ) } ) } ), atom( "B", { 1 }, { 1 } ) } ), q ? 2 : 4 );
  A( "two_boxes", box( "top", { 1 }, { 1 }, { box( "X", { 2 }, { 2 }, {} ), box( "Y", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 } ) } ) } ), q ? 1 : 3 );
  A( "types", box( "top", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 }, "", "d" ), atom( "B", { 1 }, { 1 }, "d", "" ) } ), 2 );
  A( "types_nested", box( "top", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 }, "", "d" ), box( "X", { 1 }, { 1 }, { atom( "B", { 1 }, { 1 }, "d", "" ) }, "d", "" ) } ), 1 );
  A( "types_boundary", box( "top", { 1 }, { 1 }, { box( "X", { 1 }, { 1 }, { atom( "B", { 1 }, { 1 }, "d", "" ) }, "", "" ) } ), 1 );
  A( "types_boundary_out", box( "top", { 1 }, { 1 }, { box( "X", { 1 }, { 1 }, { atom( "B", { 1 }, { 1 }, "", "d" ) }, "", "" ) } ), 1 );
  auto P = [&]( std::string n, vp::Node s, int an ) { x.add( n, [s, an]( Chooser & c ) { paramFaults( c, s, an ); }, 3 ); };
  for( char k : std::string( "DMS" ) )
  {
    std::string K( 1, k ), K2 = K + K, K3 = K2 + K, f = std::string( "_" ) + k;
    P( "p_wires" + f, vp::box( "top", K2, K2, {} ), 2 );
    P( "p_two" + f, vp::box( "top", K, K, { vp::atom( "A", K, K ), vp::atom( "B", K, K ) } ), 3 );
    P( "p_multi" + f, vp::box( "top", K, K2, { vp::atom( "A", K2, K ), vp::atom( "B", K, K ) } ), q ? 2 : 4 );
    P( "p_nested" + f, vp::box( "top", K, K, { vp::box( "X", K, K, { vp::atom( "A", K, K ) } ), vp::atom( "B", K, K ) } ), q ? 2 : 4 );
    P( "p_nested2" + f, vp::box( "top", K, K, { vp::box( "X", K2, K, { vp::atom( "A", K, K ) } ), vp::atom( "B", "", K ) } ), q ? 2 : 4 );
    P( "p_merge_out" + f, vp::box( "top", K, K, { vp::box( "X", K, K, { vp::atom( "A", K, K ), vp::atom( "B", "", K ) } ) } ), q ? 2 : 4 );
    P( "p_nested3" + f, vp::box( "top", K, K, { vp::box( "X", K, K, { vp::box( "Y", K, K, { vp::atom( "A", K, K ) } ) } ) } ), q ? 2 : 4 );
    P( "p_split" + f, vp::box( "top", K, K, { vp::box( "X", K2, K, { vp::atom( "A", K2, K ) } ) } ), q ? 2 : 4 );
  }
  P( "p_types", vp::box( "top", "DM", "DM", { vp::atom( "A", "DM", "DM" ) } ), 2 );
  P( "p_types2", vp::box( "top", "Dds", "Dds", { vp::atom( "A", "Dds", "" ) } ), 2 );
  P( "p_config", vp::box( "top", "dx", "dx", { vp::atom( "A", "dx", "dx" ) } ), 2 );
  P( "p_config_nested", vp::box( "top", "dx", "dx", { vp::box( "X", "dx", "d", { vp::atom( "A", "dx", "d" ) } ) } ), 2 );
  P( "p_audio_cycle", vp::box( "top", "A", "A", { vp::atom( "A", "AD", "AS" ), vp::atom( "B", "AS", "AD" ) } ), 1 );
  P( "p_audio", vp::box( "top", "A", "A", { vp::atom( "A", "AD", "AD" ), vp::atom( "B", "AD", "AD" ) } ), q ? 1 : 3 );
  return x.run();
}
