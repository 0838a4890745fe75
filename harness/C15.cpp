//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
// Audio objects: every object within the attribute bounds is encoded, decoded, cloned and copied; texts are compared with
// an independent reading of the format; operation sequences of the object container with a map.
#include "objects.hpp"
#include <libpml/object_vector.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <algorithm>
#include <map>
using vx::Chooser;
static void expect( Chooser & c, om::ObjectVector const & got, om::ObjectVector const & want, char const * what, std::string const & msg = "" )
{
  c.compared(); std::string const a = describe( got ), b = describe( want );
  if( a != b ) { std::size_t p = 0; while( p < a.size() && p < b.size() && a[ p ] == b[ p ] ) ++p; std::size_t const s = p > 60 ? p - 60 : 0; c.note( "got  ", a.substr( s, 120 ) ); c.note( "want ", b.substr( s, 120 ) ); c.note( msg.substr( 0, 2000 ) ); c.fail( what ); }
}
// All objects: clone, copy, encode and decode, alone and together with another object, into an empty and a used scene.
static void roundTrip( Chooser & c, int deviations )
{
  int const type = c.choose( (int)kTypes.size(), "type" ); unsigned const id = c.pick( std::vector<unsigned>{ 1, 0, 4294967294u }, "id" );
  auto o = chooseObject( c, type, id, deviations ); std::string const d = describe( *o );
  if( o->type() != kTypes[ (std::size_t)type ] || o->id() != id ) c.fail( "wrong type or id" );
  auto k = o->clone(); if( describe( *k ) != d ) c.fail( "clone differs" );
  om::ObjectVector v; v.insert( *o ); k->setLevel( 77.f ); if( describe( v.at( id ) ) != d || describe( *o ) != d ) c.fail( "copies are not independent" );
  v.insert( *makeObject( ( type + 3 ) % (int)kTypes.size(), id ^ 5u, []( int, int n ) { return n - 1; } ) );
  std::string const msg = encode( v ), all = describe( v ); c.state( all );
  { om::ObjectVector w; om::ObjectVectorParser::fillObjectVector( msg, w ); expect( c, w, v, "decoding the encoded scene does not restore it", msg ); }
  { om::ObjectVector w; std::istringstream is( msg ); om::ObjectVectorParser::fillObjectVector( is, w ); expect( c, w, v, "decoding from a stream" ); }
  // previous contents of the scene have no influence on the objects decoded
  for( int prevType = 0; prevType < (int)kTypes.size(); ++prevType ) for( int last = 0; last < 2; ++last )
  {
    om::ObjectVector w; w.insert( *makeObject( prevType, id, [last]( int, int n ) { return last ? n - 1 : 0; } ) ); w.insert( *makeObject( prevType, id ^ 9u, []( int, int ) { return 0; } ) );
    std::string const other = describe( w.at( id ^ 9u ) );
    om::ObjectVectorParser::updateObjectVector( msg, w );
    if( w.size() != 3 || describe( w.at( id ) ) != d || describe( w.at( id ^ 9u ) ) != other ) { c.note( describe( w ) ); c.note( d ); c.fail( "decoding depends on the previous contents, or changes other objects" ); }
    c.compared();
    om::ObjectVectorParser::fillObjectVector( msg.c_str(), w ); expect( c, w, v, "filling a used scene" );
  }
  { om::ObjectVector w( v ); expect( c, w, v, "copy" ); om::ObjectVector x; x = w; w.at( id ).setGroupId( 99 ); expect( c, x, v, "assignment" ); om::ObjectVector y( std::move( x ) ); expect( c, y, v, "move" ); om::ObjectVector z; z = std::move( y ); expect( c, z, v, "move assignment" ); }
  { visr::pml::ObjectVector w; w.insert( *o ); visr::pml::ObjectVector x( w ), y; y = w; auto cl = w.clone(); w.at( id ).setPriority( 1 ); w.at( id ).setLevel( 78.f ); om::ObjectVector ref; ref.insert( *o ); expect( c, x, ref, "copy of the scene parameter" ); expect( c, y, ref, "assignment of the scene parameter" ); expect( c, dynamic_cast<visr::pml::ObjectVector &>( *cl ), ref, "clone of the scene parameter" ); }
}
// Hand-written messages: complete description of every type with each attribute missing, malformed or given in another notation.
struct Attr { std::string key, value; bool mandatory; };
static std::vector<Attr> attrs( int type )
{
  std::vector<Attr> a{ { "id", "12", true }, { "channels", "\"3\"", true }, { "group", "5", true }, { "level", "0.5", true }, { "priority", "2", true }, { "eq", "[{\"type\":\"lowpass\",\"f\":1000,\"q\":0.5,\"gain\":1}]", false } };
  if( type <= 2 || type == 7 ) { a.push_back( { "position", "{\"x\":1,\"y\":-2,\"z\":0.5}", true } ); a.push_back( { "channelLock", "30", false } ); }
  if( type == 1 || type == 2 ) a.push_back( { "diffuseness", "0.25", true } );
  if( type == 2 ) { a.push_back( { "width", "10", true } ); a.push_back( { "height", "20", true } ); a.push_back( { "depth", "0.75", false } ); }
  if( type == 3 ) a.push_back( { "direction", "{\"az\":45,\"el\":-10,\"refdist\":3}", true } );
  if( type == 5 ) { a.push_back( { "outputChannels", "\"M+000\"", true } ); a.push_back( { "diffuseness", "0.75", false } ); }
  if( type == 6 ) { a.push_back( { "order", "0", true } ); }
  if( type == 7 ) a.push_back( { "room", "{\"ereflect\":[{\"position\":{\"az\":0,\"el\":0,\"radius\":2},\"delay\":0.01,\"level\":0.5,\"biquadsos\":[{\"b0\":1,\"b1\":2,\"b2\":3,\"a1\":4,\"a2\":5}]}],\"lreverb\":{\"delay\":0.02,\"level\":\"1,2,3,4,5,6,7,8,9\",\"attacktime\":\"9,8,7,6,5,4,3,2,1\",\"decayconst\":\"0,0,0,0,0,0,0,0,-1\"}}", true } );
  return a;
}
static char const * const kTypeNames[] = { "point", "pointdiffuse", "pointextent", "plane", "diffuse", "channel", "hoa", "pointreverb" };
static std::unique_ptr<om::Object> expected( int type, std::string const & missing )
{
  auto o = om::ObjectFactory::create( kTypes[ (std::size_t)type ], 12 ); o->resetNumberOfChannels( 1 ); o->setChannelIndex( 0, 3 ); o->setGroupId( 5 ); o->setLevel( 0.5f ); o->setPriority( 2 );
  if( missing != "eq" ) o->setEqCoefficients( EqList{ EqCoeff( Eq::lowpass, 1000.f, 0.5f, 1.f ) } );
  if( auto p = dynamic_cast<om::PointSource *>( o.get() ) ) { p->setX( 1.f ); p->setY( -2.f ); p->setZ( 0.5f ); if( missing != "channelLock" ) p->setChannelLock( 30.f ); }
  if( auto p = dynamic_cast<om::PointSourceWithDiffuseness *>( o.get() ) ) p->setDiffuseness( 0.25f );
  if( auto p = dynamic_cast<om::PointSourceExtent *>( o.get() ) ) { p->setWidth( 10.f ); p->setHeight( 20.f ); if( missing != "depth" ) p->setDepth( 0.75f ); }
  if( auto p = dynamic_cast<om::PlaneWave *>( o.get() ) ) { p->setIncidenceAzimuth( 45.f ); p->setIncidenceElevation( -10.f ); p->setReferenceDistance( 3.f ); }
  if( auto p = dynamic_cast<om::ChannelObject *>( o.get() ) ) { p->setOutputChannels( om::ChannelObject::OutputChannelContainer{ { "M+000" } } ); if( missing != "diffuseness" ) p->setDiffuseness( 0.75f ); }
  if( auto p = dynamic_cast<Reverb *>( o.get() ) )
  {
    p->setNumberOfDiscreteReflections( 1 ); auto & r = p->discreteReflection( 0 ); r.setPosition( 2.f, 0.f, 0.f ); r.setDelay( 0.01f ); r.setLevel( 0.5f ); r.setReflectionFilter( 0, visr::rbbl::BiquadCoefficient<float>( 1.f, 2.f, 3.f, 4.f, 5.f ) );
    p->setLateReverbOnset( 0.02f ); Reverb::LateReverbCoeffs l, a, d; for( std::size_t k = 0; k < 9; ++k ) { l[ k ] = (float)k + 1.f; a[ k ] = 9.f - (float)k; d[ k ] = k == 8 ? -1.f : 0.f; } p->setLateReverbLevels( l ); p->setLateReverbAttackTimes( a ); p->setLateReverbDecayCoeffs( d );
  }
  return o;
}
static void messages( Chooser & c )
{
  int const type = c.choose( (int)kTypes.size(), "type" ); auto a = attrs( type ); a.insert( a.begin(), { "type", std::string( "\"" ) + kTypeNames[ type ] + "\"", true } );
  int const rot = c.choose( (int)a.size(), "rotation of the attributes" ); bool const rev = c.flag( "reversed" ); int const what = c.choose( (int)a.size() + 1, "affected attribute" ); int const how = what < (int)a.size() ? c.choose( 2, "missing or malformed" ) : 0;
  bool bad = false; std::string missing;
  if( what < (int)a.size() )
  {
    Attr & t = a[ (std::size_t)what ];
    if( t.key == "channels" ) return; // faulty channel lists are only logged
    if( how == 0 ) { missing = t.key; bad = t.mandatory; } else { if( !t.mandatory && t.key != "eq" ) return; bad = true; t.value = t.key == "eq" ? "[{\"type\":\"nonsense\",\"f\":1000,\"q\":0.5,\"gain\":1}]" : "\"%&\""; }
  }
  std::rotate( a.begin(), a.begin() + rot, a.end() ); if( rev ) std::reverse( a.begin(), a.end() );
  std::string m = "{\"objects\":[{"; bool first = true; for( auto const & t : a ) if( t.key != missing ) { m += ( first ? "" : "," ) + ( "\"" + t.key + "\":" + t.value ); first = false; } m += "}]}";
  om::ObjectVector w; w.insert( *makeObject( 0, 40, []( int, int ) { return 1; } ) ); bool const used = c.flag( "object exists" ); if( used ) w.insert( *makeObject( type, 12, []( int, int ) { return 1; } ) ); std::string const before = describe( w );
  bool thrown; { vx::Mute mute; thrown = vx::throws( [&] { om::ObjectVectorParser::updateObjectVector( m, w ); } ); } c.compared();
  if( c.verbose() ) c.note( m );
  if( thrown != bad ) c.fail( bad ? "malformed description accepted" : "valid description rejected" );
  if( bad ) { if( describe( w ) != before ) c.fail( "a rejected description changed the scene" ); return; }
  if( describe( w.at( 12 ) ) != describe( *expected( type, missing ) ) ) { c.note( describe( w.at( 12 ) ) ); c.note( describe( *expected( type, missing ) ) ); c.fail( "attributes differ from the message" ); }
  if( w.size() != 2 ) c.fail( "wrong number of objects" );
  { vx::Mute mute; om::ObjectVector f; f.insert( *makeObject( 0, 40, []( int, int ) { return 1; } ) ); om::ObjectVectorParser::fillObjectVector( m, f ); if( f.size() != 1 ) c.fail( "filling does not replace the scene" ); }
}
// Positions in Cartesian and spherical coordinates with every subset of coordinates.
static void positions( Chooser & c )
{
  int const mask = c.choose( 64, "coordinates" ); double const x = c.pick( std::vector<double>{ 1, -0.5 }, "first" ), y = c.pick( std::vector<double>{ 0, 30, -120 }, "second" ), z = c.pick( std::vector<double>{ 0, 45, -90 }, "third" );
  char const * const names[] = { "x", "y", "z", "az", "el", "radius" }; double const vals[] = { x, y, z, y, z, x < 0 ? 2.5 : 1.5 };
  std::ostringstream m; m << "{\"objects\":[{\"type\":\"point\",\"id\":1,\"channels\":\"0\",\"group\":0,\"level\":1,\"priority\":0,\"position\":{"; bool first = true; for( int k = 0; k < 6; ++k ) if( mask & ( 1 << k ) ) { m << ( first ? "" : "," ) << "\"" << names[ k ] << "\":" << vals[ k ]; first = false; } m << "}}]}";
  bool const cart = ( mask & 7 ) != 0, sph = ( mask & 56 ) != 0, ok = cart != sph && ( cart ? ( mask & 3 ) == 3 : ( mask & 24 ) == 24 );
  om::ObjectVector w; bool const thrown = vx::throws( [&] { om::ObjectVectorParser::updateObjectVector( m.str(), w ); } ); c.compared();
  if( thrown == ok ) c.fail( ok ? "valid position rejected " : "invalid position accepted ", m.str() );
  if( !ok ) return;
  auto const & p = dynamic_cast<om::PointSource const &>( w.at( 1 ) ); double const r = mask & 32 ? vals[ 5 ] : 1, d = M_PI / 180; double e[ 3 ] = { x, y, mask & 4 ? z : 0 };
  if( sph ) { e[ 0 ] = r * std::cos( y * d ) * std::cos( z * d ); e[ 1 ] = r * std::sin( y * d ) * std::cos( z * d ); e[ 2 ] = r * std::sin( z * d ); }
  if( std::abs( p.x() - e[ 0 ] ) > 1e-5 || std::abs( p.y() - e[ 1 ] ) > 1e-5 || std::abs( p.z() - e[ 2 ] ) > 1e-5 ) c.fail( "position ", p.x(), ",", p.y(), ",", p.z(), " from ", m.str() );
}
// Output channel lists of channel objects: all token sequences against an independent parser.
static bool parseOut( std::vector<std::string> const & tok, om::ChannelObject::OutputChannelContainer & out )
{
  // tokens: labels, "[", "]", ","; adjacent labels have been merged by the caller
  std::size_t p = 0; auto is = [&]( char const * s ) { return p < tok.size() && tok[ p ] == s; }; auto label = [&] { return p < tok.size() && !is( "[" ) && !is( "]" ) && !is( "," ); };
  if( tok.empty() ) return true;
  for( ;; )
  {
    if( label() ) out.push_back( { tok[ p++ ] } );
    else if( is( "[" ) ) { ++p; out.emplace_back(); if( !is( "]" ) ) for( ;; ) { if( !label() ) return false; out.back().push_back( tok[ p++ ] ); if( is( "," ) ) ++p; else break; } if( !is( "]" ) ) return false; ++p; }
    else return false;
    if( p == tok.size() ) return true;
    if( !is( "," ) ) return false;
    ++p;
  }
}
static void outputChannels( Chooser & c, int maxTok )
{
  static char const * const toks[] = { "M+030", "b", "[", "]", ",", " ", "_-1", "@" }; int const n = c.choose( maxTok + 1, "tokens" ); std::string s; std::vector<std::string> t; bool glued = false;
  for( int i = 0; i < n; ++i )
  {
    int const k = c.choose( 8, "token" ); s += toks[ k ]; if( k == 5 ) { glued = false; continue; }
    bool const lab = k < 2 || k > 5; bool const prevLab = !t.empty() && t.back() != "[" && t.back() != "]" && t.back() != ",";
    if( lab && prevLab ) { if( !glued ) return; t.back() += toks[ k ]; } else t.push_back( toks[ k ] ); // white space within labels is not explored
    glued = lab;
  }
  om::ChannelObject::OutputChannelContainer want; bool ok = parseOut( t, want ); int const extra = c.choose( 2, "one channel more than labels" ); std::size_t const nc = want.size() + (std::size_t)extra; ok = ok && !extra;
  std::string ch; for( std::size_t i = 0; i < nc; ++i ) ch += ( i ? "," : "" ) + std::to_string( i );
  std::string const m = "{\"objects\":[{\"type\":\"channel\",\"id\":1,\"channels\":\"" + ch + "\",\"group\":0,\"level\":1,\"priority\":0,\"outputChannels\":\"" + s + "\"}]}";
  if( c.verbose() ) c.note( m );
  om::ObjectVector w; bool const thrown = vx::throws( [&] { om::ObjectVectorParser::updateObjectVector( m, w ); } ); c.compared();
  if( thrown == ok ) c.fail( ok ? "valid output channels rejected: " : "invalid output channels accepted: ", s );
  if( !ok ) return;
  auto const & o = dynamic_cast<om::ChannelObject const &>( w.at( 1 ) ); if( o.outputChannels() != want || o.size() != want.size() ) c.fail( "output channels differ from ", s );
  om::ObjectVector v; om::ObjectVectorParser::fillObjectVector( encode( w ), v ); if( describe( v ) != describe( w ) ) c.fail( "output channels changed by encoding" );
}
// Channel lists with ranges, and invalid accesses to objects.
static void interface_( Chooser & c )
{
  int const type = c.choose( (int)kTypes.size(), "type" ); auto o = makeObject( type, 3, [&]( int, int n ) { return n - 1; } ); std::string const d = describe( *o ); std::size_t const n = o->numberOfChannels(); c.compared();
  if( !vx::throws( [&] { o->channelIndex( n ); } ) || !vx::throws( [&] { o->setChannelIndex( n, 0 ); } ) ) c.fail( "nonexistent channel accepted" );
  if( auto p = dynamic_cast<om::ChannelObject *>( o.get() ) ) { if( !vx::throws( [&] { p->outputChannel( n ); } ) || !vx::throws( [&] { p->setOutputChannel( n, "a" ); } ) || !vx::throws( [&] { p->setOutputChannels( om::ChannelObject::OutputChannelContainer( n + 1 ) ); } ) ) c.fail( "wrong number of output channels accepted" ); }
  if( auto p = dynamic_cast<Reverb *>( o.get() ) )
  {
    float v[ 10 ] = {}; if( !vx::throws( [&] { p->setLateReverbLevels( v, 8 ); } ) || !vx::throws( [&] { p->setLateReverbDecayCoeffs( v, 10 ); } ) || !vx::throws( [&] { p->setLateReverbAttackTimes( v, 0 ); } ) || !vx::throws( [&] { p->discreteReflection( 3 ); } ) || !vx::throws( [&] { p->discreteReflection( 0 ).setReflectionFilter( 10, {} ); } ) || !vx::throws( [&] { p->discreteReflection( 0 ).setReflectionFilters( visr::rbbl::BiquadCoefficientList<float>( 11 ) ); } ) ) c.fail( "reverb parameters of wrong size accepted" );
  }
  if( describe( *o ) != d ) c.fail( "a rejected call changed the object" );
  auto fresh = om::ObjectFactory::create( kTypes[ (std::size_t)type ], 9 ), fresh2 = om::ObjectFactory::create( kTypes[ (std::size_t)type ], 9 ); if( describe( *fresh ) != describe( *fresh2 ) ) c.fail( "newly created objects differ" );
  Reverb::LateReverb l( 0.5f ), l1( 0.5f, { 2.f } ), l9( 0.5f, { 1, 2, 3, 4, 5, 6, 7, 8, 9 } ); for( std::size_t k = 0; k < 9; ++k ) if( l.levels()[ k ] != 0.f || l1.levels()[ k ] != 2.f || l9.levels()[ k ] != (float)k + 1.f || l9.decayCoeffs()[ k ] != 0.f || l9.attackTimes()[ k ] != 0.f ) c.fail( "late reverb coefficients" );
  if( !vx::throws( [] { Reverb::LateReverb x( 0.5f, { 1, 2 } ); } ) ) c.fail( "late reverb with two coefficients accepted" );
}
static void container( Chooser & c, int depth )
{
  om::ObjectVector v, o; std::map<unsigned, std::string> rv, ro; auto obj = [&]( int type, unsigned id, int variant ) { return makeObject( type, id, [=]( int, int n ) { return variant % n; } ); };
  o.insert( *obj( 3, 2, 1 ) ); ro[ 2 ] = describe( o.at( 2 ) );
  auto check = [&]( om::ObjectVector & x, std::map<unsigned, std::string> const & r ) {
    c.compared(); if( x.size() != r.size() || x.empty() != r.empty() ) c.fail( "wrong size" ); auto it = x.begin(); auto cit = x.cbegin(); for( auto const & e : r ) { if( it == x.end() || cit == x.cend() || it->id() != e.first || describe( *it ) != e.second || describe( *cit ) != e.second || describe( x.at( e.first ) ) != e.second || x.find( e.first ) != it ) c.fail( "object ", e.first, " differs" ); ++it; cit++; }
    if( it != x.end() || cit != x.cend() ) c.fail( "too many objects" ); for( unsigned id = 0; id < 4; ++id ) if( !r.count( id ) && ( !vx::throws( [&] { x.at( id ); } ) || !vx::throws( [&] { x.remove( id ); } ) || x.find( id ) != x.end() ) ) c.fail( "nonexistent object ", id, " found" ); };
  for( int d = 0; d < depth; ++d )
  {
    switch( c.choose( 8, "operation" ) )
    {
    case 0: { unsigned const id = (unsigned)c.choose( 3, "id" ); int const t = c.choose( 3, "type" ); auto p = obj( t * 2, id, d + 1 ); rv[ id ] = describe( *p ); v.insert( *p ); break; }
    case 1: { unsigned const id = (unsigned)c.choose( 3, "id" ); auto p = obj( 7, id, d + 1 ); rv[ id ] = describe( *p ); v.insert( std::move( p ) ); break; }
    case 2: { unsigned const id = (unsigned)c.choose( 3, "id" ); if( vx::throws( [&] { v.remove( id ); } ) == ( rv.count( id ) > 0 ) ) c.fail( "removing" ); rv.erase( id ); break; }
    case 3: v.assign( o ); rv = ro; break; case 4: v.swap( o ); std::swap( rv, ro ); break; case 5: v.clear(); rv.clear(); break; case 6: o = v; ro = rv; break;
    case 7: if( !rv.empty() ) { v.begin()->setLevel( 50.f + (float)d ); rv.begin()->second = describe( *v.begin() ); } break;
    }
    check( v, rv ); check( o, ro ); std::string s; for( auto const & e : rv ) s += e.second; for( auto const & e : ro ) s += "/" + e.second; c.state( s );
  }
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  x.add( "roundtrip", [q]( Chooser & c ) { roundTrip( c, q ? 1 : 2 ); } ); x.add( "messages", messages ); x.add( "positions", positions ); x.add( "output-channels", [q]( Chooser & c ) { outputChannels( c, q ? 5 : 6 ); } ); x.add( "interface", interface_, 1 ); x.add( "container", [q]( Chooser & c ) { container( c, q ? 3 : 4 ); } );
  return x.run();
}
