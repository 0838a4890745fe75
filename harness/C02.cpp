//! LIBS: visr rrl rbbl efl pml objectmodel panning kissfft
//! LINK: -lboost_filesystem -lboost_system -lsndfile
#include "pgraph.hpp"
using namespace vp;

// All wirings that are well-formed, all declaration orders (or a coupled subset), several periods of operation.
static void wiring( Chooser & c, Node const & spec, int perms, int blocks )
{
  int perm = c.choose( perms, "order" ), style = c.choose( 3, "style" ); bool of = c.flag( "outputs first" );
  std::size_t period = perm % 2 ? 4 : 1;
  Graph g( spec, period, of, perm );
  for( Inst * b : g.boxes )
  {
    std::vector<int> used( b->sources.size(), 0 );
    for( std::size_t r = 0; r < b->receivers.size(); ++r )
    {
      // only branches in which every source of this kind can still be used (queues: exactly once), no direct self connection
      char k = b->receiverKind[ r ]; int left = 0, unused = 0;
      for( std::size_t i = r; i < b->receivers.size(); ++i ) left += b->receiverKind[ i ] == k;
      for( std::size_t s = 0; s < b->sources.size(); ++s ) unused += b->sourceKind[ s ] == k && !used[ s ];
      std::vector<int> cand;
      for( std::size_t s = 0; s < b->sources.size(); ++s )
      {
        if( b->sourceKind[ s ] != k || ( used[ s ] && ( left <= unused || protoOf( k ) == 'M' ) ) ) continue;
        if( b->receivers[ r ].kid >= 0 && b->receivers[ r ].kid == b->sources[ s ].kid && !b->kids[ b->receivers[ r ].kid ]->spec.composite ) continue;
        cand.push_back( (int)s );
      }
      if( cand.empty() ) return;
      int s = cand[ c.choose( (int)cand.size(), "source" ) ];
      ++used[ s ]; b->link.push_back( { (int)r, s } );
    }
  }
  if( g.valid() != 1 ) { c.note( "not well-formed" ); return; }
  c.note( "flow ", g.describe(), " order ", perm, " style ", style );
  for( Inst * b : g.boxes ) g.connect( *b, style );
  std::unique_ptr<rrl::AudioSignalFlow> flow;
  try { flow.reset( new rrl::AudioSignalFlow( *g.top->comp ) ); }
  catch( std::exception const & e ) { c.fail( "valid flow rejected: ", e.what(), " in ", g.describe() ); }
  render( c, g, *flow, period, blocks );
  c.state( vx::mix( vx::hashStr( g.describe() ), perm * 10 + of ) );
}
static void atomicTop( Chooser & c )
{
  std::vector<std::string> sets{ "D", "M", "S", "d", "m", "s", "DM", "SA", "mD", "ADS", "" };
  std::string in = c.pick( sets ), out = c.pick( sets ); bool of = c.flag();
  pml::initialiseParameterLibrary();
  SignalFlowContext ctx( 3, 48000 ); std::vector<Rec> log;
  Node s = atom( "A", in, out );
  Atom a( ctx, s, nullptr, 1, of, &log );
  rrl::AudioSignalFlow flow( a );
  c.note( "atomic top level in ", in, " out ", out );
  std::map<int, Seen> last; // per input port
  std::vector<Seen> outVal( out.size(), Seen{ 0, 0 } );
  for( int b = 0; b < 4; ++b )
  {
    std::vector<float> ib( 3 ), ob( 3, -1.f ); float const * ip[] = { ib.data() }; float * op[] = { ob.data() };
    std::vector<Seen> expect;
    for( std::size_t p = 0; p < in.size(); ++p )
    {
      auto v = hostSends( (int)p, in[ p ], b, 3 );
      if( in[ p ] == 'A' ) { ib.assign( v.begin(), v.end() ); ip[ 0 ] = ib.data(); expect.push_back( v ); continue; }
      hostSend( flow, "in" + std::to_string( p ), in[ p ], v );
      if( protoOf( in[ p ] ) == 'M' ) expect.push_back( v );
      else { if( !v.empty() ) last[ (int)p ] = Seen{ v.back() }; if( protoOf( in[ p ] ) == 'S' ) expect.push_back( last[ (int)p ] ); else expect.push_back( Seen{ v.empty() ? 0 : 1, last[ (int)p ][ 0 ] } ); }
    }
    log.clear(); flow.process( ip, op );
    if( log.size() != 1 ) c.fail( "executed ", log.size(), " times" );
    if( log[ 0 ].seen != expect ) c.fail( "block ", b, " observed ", show( log[ 0 ].seen ), " expected ", show( expect ) );
    for( std::size_t o = 0; o < out.size(); ++o )
    {
      auto v = behave( 1, (int)o, out[ o ], b, expect, 3 );
      Seen e, s2;
      if( out[ o ] == 'A' ) { e = v; for( float f : ob ) s2.push_back( int( f ) ); }
      else
      {
        if( !v.empty() ) outVal[ o ][ 1 ] = v.back();
        e = protoOf( out[ o ] ) == 'M' ? v : protoOf( out[ o ] ) == 'S' ? Seen{ outVal[ o ][ 1 ] } : Seen{ v.empty() ? 0 : 1, outVal[ o ][ 1 ] };
        s2 = hostRead( flow, "out" + std::to_string( o ), out[ o ] );
      }
      if( s2 != e ) c.fail( "block ", b, " output ", o, " shows ", show( { s2 } ), " expected ", show( { e } ) );
    }
    c.compared( 1 + out.size() );
  }
  c.state( in + "/" + out );
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool q = x.quick();
  auto add = [&]( std::string n, Node s, int perms, int blocks = 5 ) { x.add( n, [s, perms, blocks]( Chooser & c ) { wiring( c, s, perms, blocks ); }, 4 ); };
  x.add( "atomic_top", atomicTop, 2 );
  for( char k : std::string( "DMSdms" ) )
  {
    std::string K( 1, k ), K2 = K + K; std::string sfx = std::string( "_" ) + k;
    add( "wires" + sfx, box( "top", K2, K2, {} ), 1 );
    add( "chain" + sfx, box( "top", K, K, { atom( "A", K, K ), atom( "B", K, K ), atom( "C", K, K ) } ), 6 );
    add( "diamond" + sfx, box( "top", K2, K, { atom( "A", K, K2 ), atom( "B", K2, K ), atom( "C", K2, K ) } ), q ? 2 : 6, 4 );
    add( "nested" + sfx, box( "top", K, K, { box( "X", K, K, { atom( "A", K, K ) } ), atom( "B", K, K ) } ), 2 );
    add( "nested2" + sfx, box( "top", K, K2, { box( "X", K, K2, { box( "Y", K, K, { atom( "A", K, K ) } ), atom( "B", K, K ) } ), atom( "C", K, K ) } ), q ? 2 : 6 );
    add( "two_boxes" + sfx, box( "top", K, K, { box( "X", K, K2, { atom( "A", K, K ), atom( "B", K, K ) } ), box( "Y", K2, K, { atom( "C", K2, K ) } ) } ), 2 );
    if( !q ) add( "deep" + sfx, box( "top", K, K2, { box( "X", K2, K2, { box( "Y", K2, K2, { box( "Z", K, K, { atom( "A", K, K ) } ), atom( "B", K, K ) } ) } ), atom( "C", K, K ) } ), 2 );
  }
  // fan out to several receivers on different levels
  for( char k : std::string( "DSds" ) )
  {
    std::string K( 1, k ), K2 = K + K, K3 = K2 + K; std::string sfx = std::string( "_" ) + k;
    add( "fan" + sfx, box( "top", K, K3, { atom( "A", K, K ), atom( "B", K2, "" ) } ), 2 );
    add( "fan_nested" + sfx, box( "top", K, K2, { atom( "A", K, K ), box( "X", K, K, { atom( "B", K, K ), atom( "C", K2, "" ) } ), atom( "D", K2, "" ) } ), q ? 3 : 6 );
  }
  // mixed protocols and audio dependencies
  add( "mixed", box( "top", "DMA", "MDA", { atom( "A", "DA", "MA" ), atom( "B", "MA", "DA" ) } ), 2 );
  add( "mixed2", box( "top", "SA", "MA", { atom( "A", "SA", "DA" ), atom( "B", "DA", "MA" ), atom( "C", "MA", "SMA" ), atom( "D", "S", "" ) } ), q ? 4 : 24, 4 );
  add( "audio_and_param", box( "top", "A", "A", { atom( "A", "A", "AD" ), atom( "B", "AD", "A" ), atom( "C", "AD", "A" ) } ), 6 );
  add( "param_only_order", box( "top", "A", "A", { atom( "A", "A", "D" ), atom( "B", "D", "M" ), atom( "C", "MD", "S" ), atom( "E", "S", "A" ) } ), 24 );
  add( "sources_sinks", box( "top", "", "", { atom( "A", "", "MS" ), atom( "B", "S", "D" ), atom( "C", "MDS", "" ) } ), 6 );
  add( "mixed_nested", box( "top", "MA", "DA", { box( "X", "MA", "DA", { atom( "A", "MA", "SA" ), atom( "B", "SA", "DA" ) } ), atom( "C", "DA", "DA" ) } ), 2 );
  add( "mixed_nested2", box( "top", "mDA", "sA", { box( "X", "mA", "dA", { atom( "A", "mA", "dA" ) } ), box( "Y", "dDA", "sA", { box( "Z", "dA", "DA", { atom( "B", "dA", "DA" ) } ), atom( "C", "DDA", "sA" ) } ) } ), 2, 4 );
  return x.run();
}
