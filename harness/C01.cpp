//! LIBS: visr rrl rbbl efl pml objectmodel panning kissfft
//! LINK: -lboost_filesystem -lboost_system -lsndfile
#include "graph.hpp"
using namespace vg;

static const float GUARD = -77777.0f;

// Run blocks and compare with the reference. Each block uses a different variant of process().
static void render( Chooser & c, Graph & g, rrl::AudioSignalFlow & flow, std::size_t period, int firstVariant, int blocks )
{
  std::size_t nIn = total( g.top->spec.in ), nOut = total( g.top->spec.out );
  if( flow.period() != period ) c.fail( "period wrong" );
  if( flow.numberOfCaptureChannels() != nIn || flow.numberOfPlaybackChannels() != nOut ) c.fail( "external channel numbers wrong: ", flow.numberOfCaptureChannels(), "/", flow.numberOfPlaybackChannels() );
  auto checkPorts = [&]( bool in, Widths const & w ) {
    std::size_t n = in ? flow.numberOfAudioCapturePorts() : flow.numberOfAudioPlaybackPorts();
    if( n != w.size() ) c.fail( "number of external ports wrong" );
    std::vector<int> offs( w.size() ); int o = 0;
    for( std::size_t p = 0; p < w.size(); ++p )
    {
      std::string nm = ( in ? "in" : "out" ) + std::to_string( p );
      std::size_t idx = in ? flow.audioCapturePortIndex( nm.c_str() ) : flow.audioPlaybackPortIndex( nm.c_str() );
      if( ( in ? flow.audioCapturePortWidth( idx ) : flow.audioPlaybackPortWidth( idx ) ) != std::size_t( w[ p ] ) ) c.fail( "external port width wrong" );
      if( nm != ( in ? flow.audioCapturePortName( idx ) : flow.audioPlaybackPortName( idx ) ) ) c.fail( "external port name wrong" );
      offs[ p ] = int( in ? flow.audioCapturePortOffset( idx ) : flow.audioPlaybackPortOffset( idx ) );
    }
    (void)o; return offs;
  };
  std::vector<int> inOff = checkPorts( true, g.top->spec.in ), outOff = checkPorts( false, g.top->spec.out );
  std::vector<int> inMap, outMap; // reference channel -> flow channel
  for( std::size_t p = 0; p < inOff.size(); ++p ) for( int ch = 0; ch < g.top->spec.in[ p ]; ++ch ) inMap.push_back( inOff[ p ] + ch );
  for( std::size_t p = 0; p < outOff.size(); ++p ) for( int ch = 0; ch < g.top->spec.out[ p ]; ++ch ) outMap.push_back( outOff[ p ] + ch );
  auto outs = g.outputs();
  for( int b = 0; b < blocks; ++b )
  {
    int v = ( firstVariant + b ) % 5;
    // host buffers: channel stride / sample stride per variant
    std::size_t is = 1, os = 1, ics, ocs;
    if( v == 1 ) { is = 2; os = 3; } else if( v == 2 ) { is = 3; os = 1; } else if( v == 3 ) { is = nIn + 1; os = nOut + 2; }
    ics = is * period + 3; ocs = os * period + 2;
    if( v == 3 ) { ics = 1; ocs = 1; } // interleaved
    std::vector<float> ib( 1 + ics * ( nIn ? nIn - 1 : 0 ) + is * period + 4, GUARD ), ob( 1 + ocs * ( nOut ? nOut - 1 : 0 ) + os * period + 4, GUARD );
    for( std::size_t ch = 0; ch < nIn; ++ch ) for( std::size_t k = 0; k < period; ++k ) ib[ inMap[ ch ] * ics + k * is ] = inputSample( b, ch, k );
    std::vector<float> ibCopy = ib;
    std::vector<float const *> ip; std::vector<float *> op;
    for( std::size_t ch = 0; ch < nIn; ++ch ) ip.push_back( &ib[ ch * ics ] );
    for( std::size_t ch = 0; ch < nOut; ++ch ) op.push_back( &ob[ ch * ocs ] );
    g.log.clear();
    switch( v )
    {
    case 0: if( !flow.process( ip.data(), op.data() ) ) c.fail( "process returned false" ); break;
    case 1: if( !flow.process( ip.data(), op.data(), is, os ) ) c.fail( "process returned false" ); break;
    case 2: case 3: flow.process( ib.data(), ics, is, ob.data(), ocs, os ); break;
    case 4: { bool st = false; rrl::AudioSignalFlow::processFunction( &flow, ip.data(), op.data(), st ); if( !st ) c.fail( "processFunction reports failure" ); } break;
    }
    if( ib != ibCopy ) c.fail( "block ", b, ": input buffer modified" );
    std::vector<float> ref( ob.size(), GUARD );
    for( std::size_t k = 0; k < period; ++k )
    {
      std::vector<float> ext; for( std::size_t ch = 0; ch < nIn; ++ch ) ext.push_back( inputSample( b, ch, k ) );
      std::map<std::pair<Inst *, int>, float> memo;
      for( std::size_t ch = 0; ch < nOut; ++ch ) ref[ outMap[ ch ] * ocs + k * os ] = g.eval( outs[ ch ], ext, memo );
    }
    if( ob != ref )
      for( std::size_t i = 0; i < ob.size(); ++i ) if( ob[ i ] != ref[ i ] ) c.fail( "block ", b, " (call variant ", v, "): output buffer element ", i, " is ", ob[ i ], " expected ", ref[ i ], " in ", g.describe() );
    // every component ran exactly once, after its producers
    std::vector<int> l = g.log; std::sort( l.begin(), l.end() );
    if( l.size() != g.atoms.size() || std::adjacent_find( l.begin(), l.end() ) != l.end() ) c.fail( "components executed ", g.log.size(), " times per block, expected ", g.atoms.size() );
    c.compared( nOut * period + 1 );
  }
}

struct Shape { std::string name; NodeSpec spec; };

// Enumerate every wiring in which all source channels are used. full: also enumerate all declaration orders,
// declaration styles, periods; otherwise one coupled choice of `variants` combinations.
static void wiring( Chooser & c, NodeSpec const & spec, bool full, int variants )
{
  static const std::size_t periods[] = { 1, 3, 8 };
  int perm, style, pv, outFirst; std::size_t period;
  if( full )
  {
    int np = 1; for( auto & k : { spec.kids.size() } ) for( std::size_t i = 2; i <= k; ++i ) np *= (int)i;
    perm = c.choose( np, "order" ); style = c.choose( 3, "style" ); outFirst = c.choose( 2, "outputs declared first" ); period = periods[ c.choose( 3, "period" ) ]; pv = style;
  }
  else
  {
    int v = c.choose( variants, "variant" );
    perm = v; style = v % 3; outFirst = ( v / 2 ) % 2; period = periods[ ( v + 1 ) % 3 ]; pv = v;
  }
  Graph g( spec, period, outFirst, perm );
  // choose wiring box by box, receiver by receiver; prune branches that cannot use all sources
  for( Inst * b : g.boxes )
  {
    std::vector<int> used( b->sources.size(), 0 ); int unused = (int)used.size();
    for( std::size_t r = 0; r < b->receivers.size(); ++r )
    {
      std::vector<int> cand;
      int left = (int)( b->receivers.size() - r );
      for( std::size_t s = 0; s < b->sources.size(); ++s )
        if( b->sourceType[ s ] == b->receiverType[ r ] && ( left > unused || !used[ s ] ) ) cand.push_back( (int)s );
      if( cand.empty() ) return;
      int s = cand[ c.choose( (int)cand.size(), "source" ) ];
      if( !used[ s ]++ ) --unused;
      b->link.push_back( { (int)r, s } );
    }
    if( unused > 0 ) return;
  }
  if( !g.acyclic() ) { c.note( "cyclic (not a valid flow)" ); return; }
  c.note( "flow ", g.describe(), "period ", period, " style ", style, " order ", perm );
  for( Inst * b : g.boxes ) g.connect( *b, style );
  {
    std::unique_ptr<rrl::AudioSignalFlow> flow;
    try { flow.reset( new rrl::AudioSignalFlow( *g.top->comp ) ); }
    catch( std::exception const & e ) { c.fail( "valid flow rejected: ", e.what(), " in ", g.describe() ); }
    render( c, g, *flow, period, pv, 3 );
  }
  c.state( vx::mix( vx::hashStr( g.describe() ), perm * 100 + outFirst ) );
}
static void atomicTop( Chooser & c )
{
  static const std::size_t periods[] = { 1, 4, 7 };
  std::size_t period = c.pick( std::vector<std::size_t>( periods, periods + 3 ) );
  std::vector<Widths> ws{ { 1 }, { 2 }, { 1, 1 }, { 2, 1 }, { 3 }, { 1, 0, 2 } };
  Widths in = c.pick( ws ), out = c.pick( ws ); bool of = c.flag( "outputs first" ); int pv = c.choose( 5 );
  SignalFlowContext ctx( period, 48000 ); std::vector<int> log;
  NodeSpec s = atom( "A", in, out );
  Atom a( ctx, s, nullptr, 1, of, &log );
  rrl::AudioSignalFlow flow( a );
  c.note( "atomic top level, period ", period );
  std::size_t nIn = total( in ), nOut = total( out );
  if( flow.numberOfCaptureChannels() != nIn || flow.numberOfPlaybackChannels() != nOut ) c.fail( "channel numbers wrong" );
  for( int b = 0; b < 3; ++b )
  {
    int v = ( b + pv ) % 2; std::size_t st = v ? 2 : 1;
    std::vector<std::vector<float>> ib( nIn, std::vector<float>( period * st, GUARD ) ), ob( nOut, std::vector<float>( period * st, GUARD ) );
    std::vector<float const *> ip; std::vector<float *> op;
    for( std::size_t ch = 0; ch < nIn; ++ch ) { for( std::size_t k = 0; k < period; ++k ) ib[ ch ][ k * st ] = inputSample( b, ch, k ); ip.push_back( ib[ ch ].data() ); }
    for( auto & o : ob ) op.push_back( o.data() );
    flow.process( ip.data(), op.data(), st, st );
    for( std::size_t ch = 0; ch < nOut; ++ch ) for( std::size_t k = 0; k < period; ++k )
    {
      std::vector<float> x; for( std::size_t i = 0; i < nIn; ++i ) x.push_back( inputSample( b, i, k ) );
      float e = atomFunction( 1, (int)ch, x );
      if( ob[ ch ][ k * st ] != e ) c.fail( "block ", b, " channel ", ch, " sample ", k, " is ", ob[ ch ][ k * st ], " expected ", e );
      if( st == 2 && ob[ ch ][ k * st + 1 ] != GUARD ) c.fail( "stride gap overwritten" );
    }
    c.compared( nOut * period );
  }
  c.state( vx::mix( period, nIn * 100 + nOut ) );
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv );
  bool q = x.quick();
  x.add( "atomic_top", atomicTop );
  auto full = [&]( std::string n, NodeSpec s, int sd = 4 ) { x.add( n, [s]( Chooser & c ) { wiring( c, s, true, 0 ); }, sd ); };
  auto part = [&]( std::string n, NodeSpec s, int v, int sd = 3 ) { x.add( n, [s, v]( Chooser & c ) { wiring( c, s, false, v ); }, sd ); };
  full( "wires", box( "top", { 2, 1 }, { 1, 3 }, {} ) );
  full( "one_1to1", box( "top", { 2 }, { 2 }, { atom( "A", { 1 }, { 1 } ) } ) );
  full( "one_2to2", box( "top", { 1, 1 }, { 3 }, { atom( "A", { 2 }, { 2 } ) } ) );
  full( "one_3to1", box( "top", { 3 }, { 1, 1 }, { atom( "A", { 2, 1 }, { 1 } ) } ) );
  full( "two_chain", box( "top", { 2 }, { 2 }, { atom( "A", { 1 }, { 1 } ), atom( "B", { 1 }, { 1 } ) } ) );
  full( "two_2to1_1to2", box( "top", { 2 }, { 2 }, { atom( "A", { 2 }, { 1 } ), atom( "B", { 1 }, { 2 } ) } ) );
  part( "two_2to2", box( "top", { 1, 1 }, { 2 }, { atom( "A", { 1, 1 }, { 2 } ), atom( "B", { 2 }, { 1, 1 } ) } ), q ? 4 : 12 );
  part( "three", box( "top", { 1 }, { 2 }, { atom( "A", { 1 }, { 1 } ), atom( "B", { 1 }, { 1 } ), atom( "C", { 2 }, { 1 } ) } ), q ? 6 : 12 );
  part( "three_wide", box( "top", { 2 }, { 2 }, { atom( "A", { 2 }, { 2 } ), atom( "B", { 1 }, { 1 } ), atom( "C", { 2 }, { 1 } ) } ), q ? 2 : 6 );
  part( "four", box( "top", { 1 }, { 2 }, { atom( "A", { 1 }, { 1 } ), atom( "B", { 1 }, { 1 } ), atom( "C", { 1 }, { 1 } ), atom( "D", { 2 }, { 1 } ) } ), q ? 2 : 12 );
  part( "wide_fan", box( "top", { 3 }, { 4 }, { atom( "A", { 3 }, { 3 } ) } ), q ? 1 : 4 );
  part( "sink_source", box( "top", { 1 }, { 2 }, { atom( "A", { 2 }, {} ), atom( "B", {}, { 2 } ), atom( "C", { 1 }, { 1 } ) } ), q ? 3 : 12 );
  part( "nested", box( "top", { 1 }, { 2 }, { box( "X", { 2 }, { 2 }, { atom( "A", { 1 }, { 1 } ) } ), atom( "B", { 1 }, { 1 } ) } ), q ? 4 : 12 );
  part( "nested_ports", box( "top", { 2 }, { 2 }, { box( "X", { 1, 1 }, { 1, 1 }, { atom( "A", { 2 }, { 2 } ) } ) } ), q ? 6 : 12 );
  part( "nested_twice", box( "top", { 1 }, { 2 }, { box( "X", { 1 }, { 2 }, { box( "Y", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 } ) } ), atom( "B", { 1 }, { 1 } ) } ), atom( "C", { 2 }, { 1 } ) } ), q ? 6 : 12 );
  part( "two_boxes", box( "top", { 1 }, { 2 }, { box( "X", { 1 }, { 2 }, { atom( "A", { 1 }, { 1 } ) } ), box( "Y", { 2 }, { 1 }, { atom( "B", { 2 }, { 1 } ) } ) } ), q ? 6 : 12 );
  part( "crossed_boxes", box( "top", { 1 }, { 1 }, { box( "X", { 2 }, { 2 }, { atom( "A", { 1 }, { 1 } ), atom( "B", { 1 }, { 1 } ) } ), box( "Y", { 2 }, { 2 }, { atom( "C", { 1 }, { 1 } ) } ) } ), q ? 2 : 12 );
  part( "mixed_types", box( "top", { 2 }, { 2 }, { atom( "A", { 2 }, { 2 }, "", "d" ), atom( "B", { 2 }, { 2 }, "d", "" ), atom( "C", { 1 }, { 1 }, "d", "d" ) } ), q ? 3 : 12 );
  part( "mixed_nested", box( "top", { 2 }, { 2 }, { atom( "A", { 1 }, { 2 }, "", "d" ), box( "X", { 2 }, { 1 }, { atom( "B", { 2 }, { 1 }, "d", "" ) }, "d", "" ), atom( "C", { 1 }, { 1 } ) } ), q ? 3 : 12 );
  if( !q )
  {
    part( "three_boxes", box( "top", { 1 }, { 2 }, { box( "X", { 1 }, { 1 }, { atom( "A", { 1 }, { 1 } ) } ), box( "Y", { 2 }, { 2 }, { atom( "B", { 1 }, { 1 } ) } ), box( "Z", { 1 }, { 1 }, { atom( "C", { 1 }, { 1 } ) } ) } ), 12 );
    part( "five", box( "top", { 1 }, { 2 }, { atom( "A", { 1 }, { 1 } ), atom( "B", { 1 }, { 1 } ), atom( "C", { 1 }, { 1 } ), atom( "D", { 1 }, { 1 } ), atom( "E", { 2 }, { 1 } ) } ), 3 );
  }
  return x.run();
}
