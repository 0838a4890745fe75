//! LIBS: rcl rrl visr pml objectmodel panning rbbl efl kissfft ffts
//! LINK: -lboost_filesystem -lboost_thread -lboost_system -lsndfile
// Control values received as OSC messages: all bounded sequences of datagrams over several periods through rcl::ScalarOscDecoder. The datagrams are encoded independently of the library used by the decoder.
#include "explore.hpp"
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/string_parameter.hpp>
#include <librcl/scalar_osc_decoder.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <cstring>
#include <limits>
#include <memory>
using namespace visr; using namespace vx; using MQ = pml::MessageQueueProtocol;
struct Arg { char tag; uint64_t bits; std::string text; };
static Arg integer( int32_t v ) { return { 'i', (uint32_t)v, "" }; }
static Arg real( float v ) { uint32_t u; std::memcpy( &u, &v, 4 ); return { 'f', u, "" }; }
static Arg real( double v ) { uint64_t u; std::memcpy( &u, &v, 8 ); return { 'd', u, "" }; }
using Args = std::vector<Arg>;
static std::string pad( std::string s ) { s += '\0'; while( s.size() % 4 ) s += '\0'; return s; }
static std::string big( uint64_t v, int n ) { std::string s; for( int i = n - 1; i >= 0; --i ) s += (char)( v >> ( 8 * i ) ); return s; }
static std::string encode( std::string const & address, Args const & a ) { std::string tags = ",", data; for( auto const & x : a ) { tags += x.tag; if( x.tag == 'i' || x.tag == 'f' ) data += big( x.bits, 4 ); else if( x.tag == 'd' || x.tag == 'h' ) data += big( x.bits, 8 ); else if( x.tag == 's' ) data += pad( x.text ); else if( x.tag == 'b' ) { data += big( x.text.size(), 4 ) + x.text; while( data.size() % 4 ) data += '\0'; } } return pad( address ) + pad( tags ) + data; }
static std::string bundle( std::vector<std::string> const & v ) { std::string s = pad( "#bundle" ) + big( 1, 8 ); for( auto const & m : v ) s += big( m.size(), 4 ) + m; return s; }
struct Datagram { std::string bytes; std::vector<Args> messages; };
static std::vector<Args> const & arguments()
{
  static std::vector<Args> const v{ { integer( 0 ) }, { integer( 7 ) }, { integer( -1 ) }, { integer( std::numeric_limits<int>::max() ) }, { integer( std::numeric_limits<int>::min() ) }, { real( 0.f ) }, { real( -1.5f ) }, { real( 3.25e30f ) }, { real( 0.1 ) }, { real( -7.0 ) }, { { 'T', 0, "" } }, { { 'F', 0, "" } }, {}, { { 's', 0, "5" } }, { { 'h', 5, "" } }, { { 'b', 0, "abcde" } },
    { integer( 3 ), integer( 4 ) }, { real( 0.5f ), { 's', 0, "x" } }, { { 's', 0, "abc" }, integer( 4 ) }, { { 'T', 0, "" }, { 'F', 0, "" } } };
  return v;
}
// The value of a message for a component of a given type.
enum { BOOL, INT, UINT, FLOAT, DOUBLE, TYPES };
static char const * const NAMES[] = { "bool", "int", "uint", "float", "double" };
static bool value( int type, Args const & a, uint64_t & v )
{
  if( a.empty() ) return false; char const t = a[ 0 ].tag; v = a[ 0 ].bits;
  switch( type ) { case BOOL: v = t == 'T'; return t == 'T' || t == 'F'; case INT: return t == 'i'; case UINT: return t == 'i' && !( v >> 31 ); case FLOAT: return t == 'f'; default: return t == 'd'; }
}
struct Decoder
{
  int type; SignalFlowContext ctx; rcl::ScalarOscDecoder comp; std::unique_ptr<rrl::AudioSignalFlow> flow; MQ::OutputBase * in; MQ::InputBase * out;
  explicit Decoder( int t ) : type( t ), ctx( 8, 48000 ), comp( ctx, "osc" ) { comp.setup( NAMES[ t ] ); flow.reset( new rrl::AudioSignalFlow( comp ) ); in = &dynamic_cast<MQ::OutputBase &>( flow->externalParameterReceivePort( "datagramInput" ) ); out = &dynamic_cast<MQ::InputBase &>( flow->externalParameterSendPort( "dataOut" ) ); }
  void send( std::string const & s ) { in->enqueue( std::unique_ptr<ParameterBase>( new pml::StringParameter( s ) ) ); }
  void process( Chooser & c ) { Mute m; std::streambuf * o = std::cout.rdbuf( nullptr ), * e = std::cerr.rdbuf( nullptr ); bool const t = throws( [&] { flow->process( static_cast<float const * const *>( nullptr ), static_cast<float * const *>( nullptr ) ); } ); std::cout.rdbuf( o ); std::cerr.rdbuf( e ); std::cout.clear(); std::cerr.clear(); if( t ) c.fail( "the period failed" ); }
  uint64_t take()
  {
    uint64_t v = 0; ParameterBase const & p = out->front();
    switch( type )
    {
      case BOOL: v = dynamic_cast<pml::ScalarParameter<bool> const &>( p ).value(); break;
      case INT: v = (uint32_t)dynamic_cast<pml::ScalarParameter<int> const &>( p ).value(); break;
      case UINT: v = dynamic_cast<pml::ScalarParameter<unsigned int> const &>( p ).value(); break;
      case FLOAT: v = real( dynamic_cast<pml::ScalarParameter<float> const &>( p ).value() ).bits; break;
      default: v = real( dynamic_cast<pml::ScalarParameter<double> const &>( p ).value() ).bits;
    }
    out->pop(); return v;
  }
  void expect( Chooser & c, std::vector<uint64_t> const & e )
  {
    std::vector<uint64_t> r; while( !out->empty() ) r.push_back( take() ); c.compared( 1 + e.size() );
    if( r != e ) { std::ostringstream s; for( auto x : r ) s << " " << std::hex << x; s << " instead of"; for( auto x : e ) s << " " << std::hex << x; c.fail( NAMES[ type ], " decoder returned", s.str() ); }
  }
};
// One message of every kind, plain or as one of several in a (nested) bundle.
static Datagram any( Chooser & c, bool many )
{
  auto const & a = arguments(); Datagram d; auto msg = [&]( std::size_t i ) { d.messages.push_back( a[ i ] ); return encode( i % 3 ? "/a" : "/some/longer", a[ i ] ); }; auto pick = [&] { return msg( (std::size_t)c.choose( (int)a.size(), "message" ) ); };
  switch( c.choose( many ? 7 : 3, "datagram" ) )
  {
    case 0: d.bytes = pick(); break;
    case 1: { auto const x = pick(); d.bytes = bundle( { x, msg( 1 ) } ); break; }
    case 2: d.bytes = c.flag( "unterminated" ) ? "garbage" : ""; break;
    case 3: { auto const x = msg( 0 ), y = pick(), z = pick(); d.bytes = bundle( { x, bundle( { y } ), z } ); break; }
    case 4: { auto const x = pick(), y = pick(); d.bytes = bundle( { x, y, msg( 5 ) } ); break; }
    case 5: { auto const x = msg( 8 ); d.bytes = bundle( { bundle( { x, pick() } ), msg( 10 ) } ); break; }
    default: d.bytes = bundle( { msg( 1 ), "#bund\0\0" "xxxx" } ); d.messages.clear(); d.bytes += "1234"; break;
  }
  return d;
}
static void sequence( Chooser & c, int periods, int perPeriod, bool many )
{
  int const type = c.choose( TYPES, "type" ); Decoder d( type );
  for( int p = 0; p < periods; ++p )
  {
    int const n = c.choose( perPeriod + 1, "datagrams" ); std::vector<uint64_t> e; for( int i = 0; i < n; ++i ) { auto const g = any( c, many ); d.send( g.bytes ); uint64_t v; for( auto const & m : g.messages ) if( value( type, m, v ) ) e.push_back( v ); }
    d.process( c ); d.expect( c, e ); c.state( mix( (uint64_t)type, e.size() ) );
  }
}
// Damaged datagrams never disturb the ones before and after them.
static void damaged( Chooser & c )
{
  int const type = c.choose( TYPES, "type" ); Decoder d( type ); auto const & a = arguments(); std::size_t const k = (std::size_t)c.choose( (int)a.size(), "message" ); bool const inBundle = c.flag( "bundle" ); std::string s = encode( "/a", a[ k ] ); std::size_t const messages = inBundle ? 2 : 1; if( inBundle ) s = bundle( { s, encode( "/b", a[ ( k + 1 ) % a.size() ] ) } );
  if( c.flag( "truncated" ) ) s.resize( (std::size_t)c.choose( (int)s.size(), "length" ) ); else { std::size_t const at = (std::size_t)c.choose( (int)s.size(), "byte" ); char const r = c.pick( std::vector<char>{ '\0', '\xff', '/', ',', 'i', 'f', 'd', 's', 'b', '\x01' }, "replacement" ); s[ at ] = r; }
  static Args const good[] = { { { 'T', 0, "" } }, { integer( 42 ) }, { integer( 43 ) }, { real( 2.5f ) }, { real( 1e-3 ) } }; uint64_t v = 0; value( type, good[ type ], v ); std::string const g = encode( "/good", good[ type ] );
  d.send( g ); d.send( s ); d.send( g ); d.process( c ); std::vector<uint64_t> r; while( !d.out->empty() ) r.push_back( d.take() ); c.compared( 2 );
  if( r.size() < 2 || r.size() > 2 + messages || r.front() != v || r.back() != v ) c.fail( "a damaged datagram disturbed others: ", r.size(), " values" ); d.send( g ); d.process( c ); d.expect( c, { v } ); c.state( mix( (uint64_t)type, r.size() ) );
}
static void types( Chooser & c )
{
  std::string const name = c.pick( std::vector<std::string>{ "bool", "int", "uint", "float", "double", "", "Bool", "integer", "floa", "floats" }, "type" ); SignalFlowContext ctx( 8, 48000 ); rcl::ScalarOscDecoder comp( ctx, "osc" ); bool t; { Mute m; t = throws( [&] { comp.setup( name.c_str() ); } ); } c.compared(); bool known = false; for( auto n : NAMES ) known = known || name == n;
  if( t == known ) c.fail( "data type '", name, "' ", t ? "rejected" : "accepted" );
}
int main( int argc, char ** argv )
{
  Explorer x( argc, argv ); bool const q = x.quick(); pml::initialiseParameterLibrary();
  x.add( "types", []( Chooser & c ) { types( c ); }, 1 );
  x.add( "single datagrams", []( Chooser & c ) { sequence( c, 1, 1, true ); }, 3 );
  x.add( "two datagrams", [q]( Chooser & c ) { sequence( c, 1, 2, !q ); }, 4 );
  x.add( "two periods", [q]( Chooser & c ) { sequence( c, 2, q ? 1 : 2, false ); }, 4 );
  x.add( "damaged datagrams", []( Chooser & c ) { damaged( c ); }, 3 );
  return x.run();
}
