//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
// Scene decoder and encoder in a running flow: all sequences of messages over periods against an accumulated scene.
#include "objects.hpp"
#include "runner.hpp"
#include <libpml/object_vector.hpp>
#include <libpml/string_parameter.hpp>
#include <librcl/scene_decoder.hpp>
#include <librcl/scene_encoder.hpp>
#include <map>
#include <set>
static std::unique_ptr<om::Object> obj( int type, unsigned id, int variant ) { return makeObject( type, id, [=]( int, int n ) { return variant % n; } ); }
static std::string text( std::vector<std::unique_ptr<om::Object>> const & objs ) { om::ObjectVector v; for( auto const & o : objs ) v.insert( *o ); return encode( v ); }
// A message: the text, the objects it describes well, the objects it describes wrongly, and whether it is well-formed as a whole.
struct Msg { std::string text; std::map<unsigned, std::string> good; bool ok; std::set<unsigned> bad; };
static std::vector<Msg> const & pool()
{
  static std::vector<Msg> p;
  if( p.empty() )
  {
    auto add = [&]( std::vector<std::pair<int, unsigned>> const & os, int variant ) { om::ObjectVector v; Msg m; for( auto const & o : os ) { auto x = obj( o.first, o.second, variant ); v.insert( *x ); m.good[ o.second ] = describe( *x ); } m.text = encode( v ); m.ok = true; p.push_back( m ); };
    add( { { 0, 1 } }, 1 ); add( { { 0, 1 } }, 2 ); add( { { 3, 2 } }, 1 ); add( { { 5, 1 }, { 7, 3 } }, 3 ); // new object, update, second object, change of type with a further object
    p.push_back( { "{\"objects\":[", {}, false, {} } ); p.push_back( { "{\"other\":[]}", {}, false, {} } ); // broken, no objects
    { Msg m = p[ 2 ]; m.ok = false; m.bad = { 1 }; m.text = m.text.substr( 0, m.text.rfind( ']' ) ) + ",{\"type\":\"point\",\"id\":\"1\",\"channels\":\"0\",\"group\":\"0\",\"level\":\"0.25\",\"priority\":\"0\"}]}"; p.push_back( m ); } // good description, then one without position
    p.push_back( { "{\"objects\":[{\"type\":\"point\",\"id\":1,\"channels\":\"0\",\"group\":0,\"level\":0.125,\"priority\":0,\"position\":{\"x\":1,\"y\":2,\"z\":3,\"az\":1}}]}", {}, false, { 1 } } );
    p.push_back( { "{\"objects\":[{\"type\":\"unknown\",\"id\":7}]}", {}, false, { 7 } } ); p.push_back( { "{\"objects\":[]}", {}, true, {} } ); p.push_back( { "", {}, false, {} } );
  }
  return p;
}
using Scene = std::map<unsigned, std::set<std::string>>; // possible descriptions per object ("" = absent)
static void decode( Chooser & c, int periods, int perPeriod, std::vector<int> const & use )
{
  SignalFlowContext ctx( 4, 48000 ); rcl::SceneDecoder dec( ctx, "dec" ); Runner run( dec, 4, 0, 0 );
  auto in = dynamic_cast<pml::MessageQueueProtocol::OutputBase *>( &run.flow.externalParameterReceivePort( "datagramInput" ) ); auto out = dynamic_cast<pml::DoubleBufferingProtocol::InputBase *>( &run.flow.externalParameterSendPort( "objectVectorOutput" ) );
  Scene scene; std::string last;
  for( int p = 0; p < periods; ++p )
  {
    int const n = c.choose( perPeriod + 1, "messages" ); bool published = false;
    for( int k = 0; k < n; ++k )
    {
      Msg const & m = pool()[ (std::size_t)c.pick( use, "message" ) ]; in->enqueue( std::unique_ptr<ParameterBase>( new pml::StringParameter( m.text ) ) ); if( c.verbose() ) c.note( "period ", p, ": ", m.text.substr( 0, 200 ) );
      for( auto const & g : m.good ) { auto & s = scene[ g.first ]; if( m.ok ) s.clear(); else if( s.empty() ) s.insert( "" ); s.insert( g.second ); }
      published |= m.ok;
    }
    out->resetChanged(); if( !run.step() ) c.fail( "the period failed" ); c.compared();
    if( published && !out->changed() ) c.fail( "no change reported after a valid message" );
    if( n == 0 && out->changed() ) c.fail( "change reported without a message" );
    om::ObjectVector const & v = dynamic_cast<pml::ObjectVector const &>( out->data() );
    for( auto it = v.cbegin(); it != v.cend(); ++it ) { auto f = scene.find( it->id() ); if( f == scene.end() ) c.fail( "object ", it->id(), " was never sent" ); if( !f->second.count( describe( *it ) ) ) { c.note( describe( *it ).substr( 0, 300 ) ); for( auto const & s : f->second ) c.note( "expected ", s.substr( 0, 300 ) ); c.fail( "object ", it->id(), " is not in the state of its last update" ); } }
    for( auto const & e : scene ) if( !e.second.count( "" ) && v.find( e.first ) == v.cend() ) c.fail( "object ", e.first, " is missing in the scene" );
    std::string const d = describe( v ); if( n == 0 && d != last ) c.fail( "the scene changed without a message" ); last = d; c.state( d );
  }
}
static void roundTrip( Chooser & c, int periods )
{
  SignalFlowContext ctx( 4, 48000 ); rcl::SceneEncoder enc( ctx, "enc" ); Runner run( enc, 4, 0, 0 ); rcl::SceneDecoder dec( ctx, "dec" ); Runner run2( dec, 4, 0, 0 );
  auto in = dynamic_cast<pml::SharedDataProtocol::OutputBase *>( &run.flow.externalParameterReceivePort( "objectInput" ) ); auto msgs = dynamic_cast<pml::MessageQueueProtocol::InputBase *>( &run.flow.externalParameterSendPort( "messageOutput" ) );
  auto in2 = dynamic_cast<pml::MessageQueueProtocol::OutputBase *>( &run2.flow.externalParameterReceivePort( "datagramInput" ) ); auto out = dynamic_cast<pml::DoubleBufferingProtocol::InputBase *>( &run2.flow.externalParameterSendPort( "objectVectorOutput" ) );
  om::ObjectVector all; bool const batch = c.flag( "decode only at the end" );
  for( int p = 0; p < periods; ++p )
  {
    auto & v = dynamic_cast<pml::ObjectVector &>( in->data() );
    switch( c.choose( 4, "edit" ) ) { case 0: break; case 1: v.insert( *obj( c.choose( 8, "type" ), 1, p + 1 ) ); break; case 2: v.insert( *obj( 2, 2, p + 1 ) ); break; case 3: v.clear(); break; }
    for( auto it = v.cbegin(); it != v.cend(); ++it ) all.insert( *it );
    std::string const want = describe( v ); if( !run.step() ) c.fail( "encoding failed" ); c.compared();
    if( msgs->empty() ) c.fail( "no message encoded" );
    { om::ObjectVector w; auto const & m = dynamic_cast<pml::StringParameter const &>( msgs->front() ); om::ObjectVectorParser::fillObjectVector( std::string( m.str(), m.size() ), w ); if( describe( w ) != want ) c.fail( "message does not describe the scene" ); in2->enqueue( m.clone() ); msgs->pop(); if( !msgs->empty() ) c.fail( "more than one message" ); }
    if( !batch || p == periods - 1 ) { if( !run2.step() ) c.fail( "decoding failed" ); std::string const got = describe( dynamic_cast<pml::ObjectVector const &>( out->data() ) ); c.state( got ); if( got != describe( all ) ) c.fail( "decoded scene differs from the accumulated scene" ); }
  }
}
int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary(); pool();
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  x.add( "decode", [q]( Chooser & c ) { decode( c, q ? 3 : 4, 1, { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 } ); } );
  x.add( "decode-bursts", [q]( Chooser & c ) { decode( c, 2, q ? 2 : 3, { 0, 1, 2, 3, 4, 6, 7, 9 } ); } );
  x.add( "decode-long", [q]( Chooser & c ) { decode( c, q ? 5 : 7, 1, { 1, 2, 3, 6 } ); } );
  x.add( "encode-decode", [q]( Chooser & c ) { roundTrip( c, q ? 3 : 4 ); } );
  return x.run();
}
