//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
// Runtime routing components driven through all bounded histories of routing updates.
#include "interp.hpp"
#include <libvisr/signal_flow_context.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librcl/signal_routing.hpp>
#include <librcl/sparse_gain_matrix.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <map>
using namespace visr;
using vx::Chooser;
using SR = pml::SignalRoutingParameter;
using Table = std::map<std::size_t, std::size_t>; // output -> input
static int const FS = 48000;
struct Runner
{
  rrl::AudioSignalFlow flow; std::size_t N, nIn, nOut; long t = 0; std::vector<std::vector<float>> out;
  Runner( Component & comp, std::size_t n, std::size_t i, std::size_t o ) : flow( comp ), N( n ), nIn( i ), nOut( o ) {}
  // returns false if the period failed
  bool step()
  {
    std::vector<std::vector<float>> in( nIn, std::vector<float>( N ) ); out.assign( nOut, std::vector<float>( N, -77.f ) );
    std::vector<float const *> ip; std::vector<float *> op;
    for( std::size_t i = 0; i < nIn; ++i ) { for( std::size_t s = 0; s < N; ++s ) in[ i ][ s ] = (float)sample( i, t + (long)s ); ip.push_back( in[ i ].data() ); }
    for( auto & o : out ) op.push_back( o.data() );
    bool ok = true; vx::Mute m;
    try { std::vector<float> ib( nIn * N + 1 ), ob( nOut * N + 1 ); for( std::size_t i = 0; i < nIn; ++i ) std::copy( in[ i ].begin(), in[ i ].end(), ib.begin() + i * N ); flow.process( ib.data(), N, 1, ob.data(), N, 1 ); for( std::size_t o = 0; o < nOut; ++o ) std::copy( ob.begin() + o * N, ob.begin() + ( o + 1 ) * N, out[ o ].begin() ); } catch( std::exception const & ) { ok = false; }
    t += (long)N; return ok;
  }
};
template<typename P> static P & control( rrl::AudioSignalFlow & f, char const * name, pml::DoubleBufferingProtocol::OutputBase *& port )
{
  port = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase *>( &f.externalParameterReceivePort( name ) );
  return dynamic_cast<P &>( port->data() );
}
static std::string show( Table const & t ) { std::ostringstream o; for( auto e : t ) o << e.second << "=" << e.first << " "; return o.str(); }
struct Lists { std::vector<std::vector<SR::Entry>> v; };
static Lists lists( std::size_t nIn, std::size_t nOut )
{
  std::size_t const inv = SR::cInvalidIndex; Lists l;
  l.v.push_back( {} );
  l.v.push_back( { { 0, 0 } } );
  l.v.push_back( { { nIn - 1, 0 }, { 0, nOut - 1 } } );
  { std::vector<SR::Entry> a; for( std::size_t o = 0; o < nOut; ++o ) a.push_back( { nIn - 1, o } ); l.v.push_back( a ); }
  l.v.push_back( { { 0, nOut - 1 } } );
  l.v.push_back( { { inv, 0 }, { 0, nOut } } );                  // invalid output
  l.v.push_back( { { 0, 0 }, { nIn, nOut > 1 ? nOut - 1 : 0 } } );   // invalid input
  l.v.push_back( { { inv, 0 }, { 0, nOut > 1 ? nOut - 1 : 0 } } );
  l.v.push_back( { { 0, inv } } );
  return l;
}
static SR param( std::vector<SR::Entry> const & v ) { SR p; for( auto const & e : v ) p.addRouting( e ); return p; }
static bool apply( SR const & p, std::size_t nIn, std::size_t nOut, Table & t )
{
  Table n;
  for( auto const & e : p ) { if( e.output >= nOut || ( e.input >= nIn && e.input != SR::cInvalidIndex ) ) return false; if( e.input != SR::cInvalidIndex ) n[ e.output ] = e.input; }
  t = n; return true;
}
static void checkRouting( Chooser & c, Runner const & r, Table const & t, int b )
{
  for( std::size_t o = 0; o < r.nOut; ++o ) for( std::size_t s = 0; s < r.N; ++s )
  {
    auto it = t.find( o ); float const e = it == t.end() ? 0.f : (float)sample( it->second, r.t - (long)r.N + (long)s );
    if( r.out[ o ][ s ] != e ) c.fail( "block ", b, ", routing ", show( t ), ": output ", o, ", sample ", s, " is ", r.out[ o ][ s ], ", expected ", e );
    c.compared();
  }
}
// A routing parameter edited step by step and sent after every edit.
static void edited( Chooser & c, int depth )
{
  std::size_t const n = 3, N = 4; SignalFlowContext ctx( N, FS ); rcl::SignalRouting comp( ctx, "routing" ); comp.setup( n, n, true ); Runner r( comp, N, n, n ); SR p; Table t; pml::DoubleBufferingProtocol::OutputBase * port = nullptr;
  for( int b = 0; b < depth; ++b )
  {
    int const k = c.choose( 6, "edit" ); std::size_t const i = k < 3 ? (std::size_t)c.choose( (int)n, "in" ) : 0, o = k < 3 ? (std::size_t)c.choose( (int)n, "out" ) : 0;
    if( k == 0 ) { p.addRouting( i, o ); t[ o ] = i; }
    else if( k == 1 ) { bool const had = t.count( o ) && t[ o ] == i; if( p.removeEntry( { i, o } ) != had ) c.fail( "removing ", i, "=", o, " from ", show( t ), " reports ", !had ); if( had ) t.erase( o ); }
    else if( k == 2 ) { if( i ) continue; bool const had = t.erase( o ); if( p.removeEntry( o ) != had ) c.fail( "removing output ", o, " reports ", !had ); }
    else if( k == 3 ) { p.clear(); t.clear(); }
    else if( k == 4 ) { if( !p.parse( "0=2, 2=0,1=1" ) ) c.fail( "valid text rejected" ); t = Table{ { 2, 0 }, { 0, 2 }, { 1, 1 } }; }
    else if( p.parse( "1=2,0=" ) || p.parse( "2=0 x" ) ) c.fail( "invalid text accepted" );
    std::size_t count = 0; for( auto const & e : p ) { ++count; if( !t.count( e.output ) || t[ e.output ] != e.input ) c.fail( "the routing contains ", e.input, "=", e.output, " instead of ", show( t ) ); } if( count != t.size() ) c.fail( "the routing has ", count, " entries instead of ", show( t ) );
    control<SR>( r.flow, "controlInput", port ) = p; port->swapBuffers(); if( !r.step() ) c.fail( "the period failed" ); checkRouting( c, r, t, b ); c.state( show( t ) );
  }
}
static void routing( Chooser & c, std::vector<std::size_t> const & widths, std::vector<std::size_t> const & Ns, int depth, bool viaPort, bool viaCalls )
{
  std::size_t const nIn = c.pick( widths, "inputs" ), nOut = c.pick( widths, "outputs" ), N = c.pick( Ns, "period" );
  SignalFlowContext ctx( N, FS ); rcl::SignalRouting comp( ctx, "routing" ); Table t;
  Lists const ls = lists( nIn, nOut ); bool const initial = c.flag( "initial routing" );
  if( initial )
  {
    SR const p = param( ls.v[ c.choose( (int)ls.v.size(), "initial" ) ] );
    bool const ok = apply( p, nIn, nOut, t ); bool const th = vx::throws( [&] { comp.setup( nIn, nOut, p, viaPort ); } );
    c.note( "initial routing ", show( t ) );
    if( ok == th ) c.fail( "setup with ", ok ? "valid" : "invalid", " routing ", th ? "rejected" : "accepted" );
    if( th ) return;
  }
  else comp.setup( nIn, nOut, viaPort );
  Runner r( comp, N, nIn, nOut ); pml::DoubleBufferingProtocol::OutputBase * port = nullptr;
  if( viaPort && r.flow.numberExternalParameterReceivePorts() != 1 ) c.fail( "component created with a control port has none" );
  for( int b = 0; b < depth; ++b )
  {
    int const kinds = ( viaCalls ? 3 : 0 ) + ( viaPort ? 1 : 0 ); int k = c.choose( kinds + 1, "op" ); bool mayFail = false;
    if( k == kinds ) c.note( "no change" );
    else if( !viaCalls || k == 3 )
    {
      int const i = c.choose( (int)ls.v.size(), "message" ); SR const p = param( ls.v[ i ] );
      control<SR>( r.flow, "controlInput", port ) = p; port->swapBuffers(); bool const ok = apply( p, nIn, nOut, t ); mayFail = !ok; c.note( "message ", i, ok ? "" : " (invalid)" );
    }
    else if( k == 0 || k == 1 )
    {
      std::size_t i = c.choose( (int)nIn + 2, "in" ), o = c.choose( (int)nOut + 1, "out" ); if( i == nIn + 1 ) i = SR::cInvalidIndex;
      bool const ok = o < nOut && ( i < nIn || i == SR::cInvalidIndex ); bool res = false;
      c.note( k ? "remove " : "set ", i, "=", o );
      bool const th = vx::throws( [&] { if( k == 0 ) comp.setRouting( i, o ); else res = comp.removeRouting( i, o ); } );
      if( k == 0 ) { if( th == ok ) c.fail( "setRouting(", i, ",", o, ") ", th ? "rejected" : "accepted" ); if( ok ) { t.erase( o ); if( i < nIn ) t[ o ] = i; } }
      else
      {
        bool const had = t.count( o ) && t[ o ] == i; if( th && ok && i < nIn ) c.fail( "removeRouting(", i, ",", o, ") rejected" );
        if( !th && ok && res != had ) c.fail( "removeRouting(", i, ",", o, ") reports ", res ); if( !ok && !th && res ) c.fail( "removed a nonexisting routing" );
        if( had ) t.erase( o );
      }
    }
    else
    {
      int const i = c.choose( (int)ls.v.size(), "list" ); SR const p = param( ls.v[ i ] ); bool const th = vx::throws( [&] { comp.setRouting( p ); } ); bool const ok = apply( p, nIn, nOut, t );
      c.note( "set list ", i ); if( th == ok ) c.fail( "setRouting(list ", i, ") ", th ? "rejected" : "accepted" );
    }
    bool const ok = r.step(); if( !ok && !mayFail ) c.fail( "period ", b, " failed" );
    if( ok ) checkRouting( c, r, t, b );
    c.state( vx::hashStr( show( t ) ) );
  }
}
// ------------------------------------------------------------------ sparse gain matrix
struct Point { std::size_t row, col; double start, target; };
struct Model
{
  std::map<std::size_t, Point> pts; std::size_t pos = 0, len;
  double w( std::size_t p ) const { return len == 0 ? 1.0 : std::min( 1.0, double( p ) / len ); }
  void freeze() { for( auto & e : pts ) e.second.start += w( pos ) * ( e.second.target - e.second.start ); pos = 0; }
  void setList( rbbl::SparseGainRoutingList const & l )
  {
    freeze(); std::map<std::size_t, Point> n;
    for( auto const & r : l ) { auto it = pts.find( r.entryIndex ); bool const kept = it != pts.end() && it->second.row == r.rowIndex && it->second.col == r.columnIndex; n[ r.entryIndex ] = { r.rowIndex, r.columnIndex, kept ? it->second.start : 0.0, r.gain }; }
    pts = n;
  }
  void setGains( std::vector<double> const & g ) { freeze(); for( auto & e : pts ) e.second.target = g[ e.first ]; }
  std::string str() const { std::ostringstream o; o << std::min( pos, len ); for( auto & e : pts ) o << ';' << e.first << ':' << e.second.row << ',' << e.second.col << ',' << e.second.start << '>' << e.second.target; return o.str(); }
};
static std::vector<rbbl::SparseGainRoutingList> sparseLists( std::size_t maxPts )
{
  using R = rbbl::SparseGainRouting; std::vector<rbbl::SparseGainRoutingList> v;
  v.push_back( {} );
  v.push_back( { R( 0, 0, 0, 1.0f ) } );
  v.push_back( { R( 0, 0, 0, 0.5f ), R( 1, 0, 1, 2.0f ) } );
  v.push_back( { R( 1, 1, 0, -1.0f ), R( 2, 1, 1, 1.0f ), R( 0, 0, 0, 3.0f ) } );
  v.push_back( { R( 0, 1, 1, 1.5f ), R( 2, 1, 1, 0.25f ) } );
  v.push_back( { R( 0, 0, 0, 7.0f ), R( maxPts, 0, 0, 1.0f ) } ); // invalid from here on
  v.push_back( { R( 0, 0, 0, 7.0f ), R( 1, 2, 0, 1.0f ) } );
  v.push_back( { R( 0, 0, 0, 7.0f ), R( 1, 0, 2, 1.0f ) } );
  return v;
}
static void sparse( Chooser & c, std::vector<std::size_t> const & Ns, std::vector<int> const & quarterPeriods, int depth )
{
  std::size_t const N = c.pick( Ns, "period" ), L = ( N * c.pick( quarterPeriods, "steps" ) + 3 ) / 4; std::size_t const nIn = 2, nOut = 2, P = 3;
  auto const ls = sparseLists( P ); std::vector<std::vector<double>> const gs{ { 1, 0.5, -0.25 }, { 0, 2, 4 } };
  SignalFlowContext ctx( N, FS ); int const init = c.choose( 4, "initial" ); int const first = init == 3 ? 5 : init == 0 ? 0 : init + 1;
  std::unique_ptr<rcl::SparseGainMatrix> comp; using Cfg = rcl::SparseGainMatrix::ControlPortConfig;
  bool const th = vx::throws( [&] { vx::Mute m; comp.reset( new rcl::SparseGainMatrix( ctx, "m", nullptr, nIn, nOut, L, P, ls[ first ], Cfg::All ) ); } );
  c.note( "period ", N, ", ", L, " interpolation samples, initial list ", first );
  if( th != ( first == 5 ) ) c.fail( "initial routing ", first, th ? " rejected" : " accepted" );
  if( th ) return;
  Model m; m.len = L; m.setList( ls[ first ] );
  Runner r( *comp, N, nIn, nOut ); pml::DoubleBufferingProtocol::OutputBase * port = nullptr;
  for( int b = 0; b < depth; ++b )
  {
    int const li = c.choose( (int)ls.size() + 1, "list" ); bool bad = false;
    if( li ) { control<pml::SparseGainRoutingListParameter>( r.flow, "routingListInput", port ).rbbl::SparseGainRoutingList::operator=( ls[ li - 1 ] ); port->swapBuffers(); bad = li - 1 >= 5; c.note( "list ", li - 1 ); if( !bad ) m.setList( ls[ li - 1 ] ); }
    if( !bad )
    {
      int const gi = c.choose( 3, "gains" );
      if( gi ) { auto & v = control<pml::VectorParameter<float>>( r.flow, "gainInput", port ); for( std::size_t i = 0; i < P; ++i ) v[ i ] = (float)gs[ gi - 1 ][ i ]; port->swapBuffers(); c.note( "gains ", gi - 1 ); m.setGains( gs[ gi - 1 ] ); }
    }
    bool const ok = r.step(); if( !ok && !bad ) c.fail( "period ", b, " failed" );
    if( ok && bad ) c.fail( "invalid routing list ", li - 1, " accepted" );
    if( !ok ) continue;
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s )
    {
      double e = 0; for( auto const & p : m.pts ) if( p.second.row == o ) e += ( p.second.start + m.w( m.pos + s + 1 ) * ( p.second.target - p.second.start ) ) * sample( p.second.col, r.t - (long)N + (long)s );
      if( !( std::fabs( e - r.out[ o ][ s ] ) <= 2e-3 ) ) c.fail( "block ", b, ", output ", o, ", sample ", s, ": ", r.out[ o ][ s ], ", expected ", e );
      c.compared();
    }
    m.pos += N; c.state( vx::hashStr( m.str() ) );
  }
}
int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary();
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  x.add( "routing by calls", [=]( Chooser & c ) { routing( c, { 1, 2 }, { 4 }, q ? 2 : 3, false, true ); }, 7 );
  x.add( "routing by calls, longer", [=]( Chooser & c ) { routing( c, { 2 }, { 4 }, q ? 3 : 4, false, true ); }, 7 );
  x.add( "routing by calls, wide", [=]( Chooser & c ) { routing( c, { 1, 3, 17 }, { 1, 5, 16 }, q ? 1 : 2, false, true ); }, 7 );
  x.add( "routing by messages", [=]( Chooser & c ) { routing( c, { 1, 2, 3 }, { 1, 4, 16 }, q ? 3 : 4, true, false ); }, 7 );
  x.add( "routing by calls and messages", [=]( Chooser & c ) { routing( c, { 2 }, { 4 }, 3, true, true ); }, 7 );
  x.add( "routing by edited messages", [=]( Chooser & c ) { edited( c, q ? 3 : 4 ); }, 4 );
  x.add( "sparse gains", [=]( Chooser & c ) { sparse( c, { 4 }, q ? std::vector<int>{ 0, 4, 8, 10 } : std::vector<int>{ 0, 1, 4, 6, 8, 10, 16 }, q ? 3 : 4 ); }, 7 );
  x.add( "sparse gains, other periods", [=]( Chooser & c ) { sparse( c, { 1, 5, 16, 17 }, { 0, 2, 4, 9 }, q ? 2 : 3 ); }, 7 );
  return x.run();
}
