//! LIBS: visr rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system
// Loudspeaker array descriptions: enumerated descriptions, element orders, single-element faults and load histories; shipped configurations.
#include "layout.hpp"
#include <libpml/array_configuration.hpp>
#include <libefl/basic_vector.hpp>
#include <boost/filesystem.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <fstream>
#include <unistd.h>
using namespace vx; using namespace layout;
static void load( Chooser & c, LoudspeakerArray & a, std::string const & x, char const * what = "a valid description" ) { Mute m; try { a.loadXmlString( x ); } catch( std::exception const & e ) { c.note( x ); c.fail( what, " is rejected: ", e.what() ); } }
static Pos const kPos[] = { { false, 1, 0.5, 0.25 }, { true, 30, 15, 1.5 }, { false, -0.75, 2, 0 }, { true, -110, 0, 1 }, { true, 180, 90, 2 }, { false, 0, -1, 1 }, { true, 90, -45, 1 } };
static std::vector<std::string> const kId{ "M+000", "b", "a", "3" };
static void permute( Chooser & c, std::vector<std::string> & e, int from = 0 ) { for( std::size_t i = (std::size_t)from; i + 1 < e.size(); ++i ) std::swap( e[ i ], e[ i + (std::size_t)c.choose( int( e.size() - i ), "order" ) ] ); }
static Pos flat( Pos p, bool twoD ) { if( twoD ) ( p.polar ? p.b : p.c ) = 0; return p; }
// Channel numbers and order of the elements; the order of virtual loudspeakers, subwoofers and triplets among themselves follows the file.
static void orders( Chooser & c, int nL, int nV, int nS, std::size_t channels )
{
  Desc d; d.twoD = c.flag( "2D" ); d.dimGiven = d.twoD || c.flag( "dimension given" ); std::vector<long> pool{ 2, 9, 1, 16, 17, 4 }; pool.resize( channels );
  auto channel = [&] { std::size_t const k = (std::size_t)c.choose( int( pool.size() ), "channel" ); long const v = pool[ k ]; pool.erase( pool.begin() + (long)k ); return v; };
  for( int i = 0; i < nL; ++i ) d.ls.push_back( { kId[ (std::size_t)i ], channel(), flat( kPos[ i ], d.twoD ), {}, "" } ); for( int i = 0; i < nL; ++i ) { d.ls[ (std::size_t)i ].level = { 1 + i % 2, 0.5 + i, true, 0.001 * ( i + 1 ) }; }
  for( int i = 0; i < nV; ++i ) { d.vs.push_back( { "v" + std::to_string( i ), flat( kPos[ 3 + i ], d.twoD ), {} } ); for( int k = i; k < nL; ++k ) d.vs.back().routes.push_back( { kId[ (std::size_t)k ], -3.0 * k - i } ); }
  for( int i = 0; i < nS; ++i ) { Sub s{ channel(), {}, {}, { 2 - i % 2, -1.0 - i, true, 0.01 * ( i + 1 ) }, "" }; for( int k = 0; k < nL - i; ++k ) { s.assigned.push_back( kId[ (std::size_t)k ] ); s.weights.push_back( 0.25 * ( k + 1 ) + i ); } if( s.assigned.empty() ) { s.assigned.push_back( kId[ 0 ] ); s.weights.push_back( 2 ); } d.subs.push_back( s ); }
  if( nL > 1 ) { d.tri.push_back( { { kId[ 0 ], kId[ 1 ], nV ? "v0" : kId[ (std::size_t)nL - 1 ] } } ); d.tri.push_back( { { nV ? "v0" : kId[ 1 ], kId[ 0 ], kId[ 1 ] } } ); }
  // interleave the kinds in every way that keeps the order within a kind; the description is the same
  auto const all = elements( d ); std::vector<std::vector<std::string>> kinds( 4 ); for( auto const & e : all ) kinds[ e[ 1 ] == 'l' ? 0 : e[ 1 ] == 'v' ? 1 : e[ 1 ] == 't' ? 2 : 3 ].push_back( e );
  std::vector<std::string> mixed; std::size_t at[ 4 ] = { 0, 0, 0, 0 };
  while( mixed.size() < all.size() ) { std::vector<int> open; for( int k = 0; k < 4; ++k ) if( at[ k ] < kinds[ (std::size_t)k ].size() ) open.push_back( k ); std::size_t const k = (std::size_t)c.pick( open, "next element" ); mixed.push_back( kinds[ k ][ at[ k ]++ ] ); }
  LoudspeakerArray a; load( c, a, wrap( d, mixed ) ); verify( c, a, d ); c.state( wrap( d, mixed ) );
}
static Desc base( bool twoD = false )
{
  Desc d; d.twoD = twoD; d.infinite = 0; d.eqs = true; d.biquads = 2; d.specs = { { "lo", { { { 1, 0.5, 0.25, 0.125, 0.0625 } } } }, { "hi", { { { 0.5, 1, 2, 3, 4 } }, { { 5, 6, 7, 8, 9 } } } } };
  d.ls = { { "b", 3, flat( kPos[ 0 ], twoD ), { 2, -6, true, 0.01 }, "hi" }, { "a", 1, flat( kPos[ 1 ], twoD ), {}, "" }, { "c", 5, flat( kPos[ 2 ], twoD ), { 1, 0.3, false, 0 }, "lo" } };
  d.vs = { { "v", flat( kPos[ 6 ], twoD ), { { "a", -3 }, { "c", -6 } } }, { "w", flat( kPos[ 3 ], twoD ), {} } };
  d.tri = { { { "a", "b", twoD ? "" : "c" } }, { { "v", "c", twoD ? "" : "a" } } };
  d.subs = { { 2, { "a", "c" }, { 0.5, 2 }, { 1, 0.7, true, 0.02 }, "lo" }, { 7, { "b" }, {}, {}, "" } };
  return d;
}
static Level chooseLevel( Chooser & c ) { Level l; l.mode = c.choose( 3, "gain" ); l.gain = l.mode == 1 ? c.pick( std::vector<double>{ 0.5, 0, -1 }, "gain value" ) : l.mode == 2 ? c.pick( std::vector<double>{ -6, 0, 20 }, "dB value" ) : 0; l.hasDelay = c.flag( "delay" ); l.delay = 0.0123; return l; }
static void attributes( Chooser & c, int which )
{
  bool const twoD = c.flag( "2D" ); Desc d = base( twoD ); d.infinite = c.choose( 3, "infinite" ) - 1; d.eqs = c.flag( "equalisers" ); d.biquads = d.eqs ? 2 + c.choose( 2, "sections" ) : 0; std::vector<std::string> names{ "" }; if( d.eqs ) { names.push_back( "lo" ); names.push_back( "hi" ); } else { d.specs.clear(); for( auto & s : d.ls ) s.eq = ""; for( auto & s : d.subs ) s.eq = ""; }
  if( which < 3 ) { auto & s = d.ls[ (std::size_t)which ]; s.level = chooseLevel( c ); s.eq = c.pick( names, "eq" ); s.pos = flat( kPos[ c.choose( 7, "position" ) ], twoD ); }
  else if( which < 5 ) { auto & s = d.subs[ (std::size_t)which - 3 ]; s.level = chooseLevel( c ); s.eq = c.pick( names, "eq" ); s.assigned.clear(); s.weights.clear(); bool const w = c.flag( "weights" ); int const m = 1 + c.choose( 7, "assigned" ); bool const rev = c.flag( "reverse" ); for( int q = 0; q < 3; ++q ) { int const k = rev ? 2 - q : q; if( m >> k & 1 ) { s.assigned.push_back( d.ls[ (std::size_t)k ].id ); if( w ) s.weights.push_back( 0.25 + q ); } } }
  else { auto & s = d.vs[ (std::size_t)which - 5 ]; s.pos = flat( kPos[ c.choose( 7, "position" ) ], twoD ); s.routes.clear(); int const m = c.choose( 8, "routes" ); bool const rev = c.flag( "reverse" ); for( int q = 0; q < 3; ++q ) { int const k = rev ? 2 - q : q; if( m >> k & 1 ) s.routes.push_back( { d.ls[ (std::size_t)k ].id, -10.0 + 7 * q } ); } }
  LoudspeakerArray a; load( c, a, xml( d ) ); verify( c, a, d ); c.state( xml( d ) );
}
static void triplets( Chooser & c, int n )
{
  Desc d = base( c.flag( "2D" ) ); d.tri.clear(); std::vector<std::string> const ids{ "a", "b", "c", "v", "w" };
  for( int i = 0; i < n; ++i ) { std::string const p = c.pick( ids, "l1" ), q = c.pick( ids, "l2" ), r = d.twoD ? ( c.flag( "unused third" ) ? "a" : "" ) : c.pick( ids, "l3" ); d.tri.push_back( { { p, q, r } } ); }
  LoudspeakerArray a; load( c, a, xml( d ) ); verify( c, a, d ); c.state( xml( d ) );
}
// Identifiers: every printable character on its own and inside a name, blanks around it.
static void ids( Chooser & c )
{
  int const ch = 0x20 + c.choose( 0x7f - 0x20, "character" ), form = c.choose( 5, "form" ), where = c.choose( 2, "regular or virtual" ); std::string const s( 1, (char)ch ); bool const ok = std::isalnum( ch ) || std::string( "@&()+/:_-" ).find( (char)ch ) != std::string::npos;
  std::string const id = form == 0 ? s : form == 1 ? "x" + s + "y" : form == 2 ? " " + s + "q" : form == 3 ? s + "z\t " : "\t" + s + " "; std::string trimmed = id; trimmed.erase( 0, trimmed.find_first_not_of( " \t" ) == std::string::npos ? trimmed.size() : trimmed.find_first_not_of( " \t" ) ); if( !trimmed.empty() ) trimmed.erase( trimmed.find_last_not_of( " \t" ) + 1 );
  if( trimmed == "a" || trimmed == "b" || trimmed == "c" || trimmed == "w" || trimmed == "v" ) return; bool const valid = !trimmed.empty() && ( ok || trimmed.find( (char)ch ) == std::string::npos );
  Desc d = base(); std::string const old = where == 0 ? "b" : "v"; ( where == 0 ? d.ls[ 0 ].id : d.vs[ 0 ].id ) = id; for( auto & t : d.tri ) for( auto & e : t ) if( e == old ) e = id; for( auto & u : d.subs ) for( auto & e : u.assigned ) if( e == old ) e = trimmed;
  LoudspeakerArray a; bool threw; { Mute m; threw = throws( [&] { a.loadXmlString( xml( d ) ); } ); } c.compared();
  if( threw == valid ) { c.note( xml( d ) ); c.fail( valid ? "valid identifier rejected" : "invalid identifier accepted", ": '", id, "'" ); }
  if( !valid ) return;
  ( where == 0 ? d.ls[ 0 ].id : d.vs[ 0 ].id ) = trimmed; for( auto & t : d.tri ) for( auto & e : t ) if( e == id ) e = trimmed; verify( c, a, d );
}
// Faults: each makes the base description invalid.
struct Fault { char const * name; std::function<std::string( Desc )> make; };
static std::string repl( std::string s, std::string const & a, std::string const & b ) { std::size_t const p = s.find( a ); if( p == std::string::npos ) throw std::logic_error( "pattern " + a + " not in " + s ); return s.replace( p, a.size(), b ); }
static std::vector<Fault> const & faults()
{
  static std::vector<Fault> f;
  if( f.empty() )
  {
    auto D = [&]( char const * n, std::function<void( Desc & )> e ) { f.push_back( { n, [=]( Desc d ) { e( d ); return xml( d ); } } ); };
    auto R = [&]( char const * n, std::string a, std::string b ) { f.push_back( { n, [=]( Desc d ) { return repl( xml( d ), a, b ); } } ); };
    for( std::size_t i = 0; i < 3; ++i ) for( std::size_t k = 0; k < 3; ++k ) if( i != k ) { D( "two loudspeakers with one id", [=]( Desc & d ) { d.ls[ i ].id = d.ls[ k ].id; } ); D( "two loudspeakers with one channel", [=]( Desc & d ) { d.ls[ i ].channel = d.ls[ k ].channel; } ); }
    for( std::size_t i = 0; i < 3; ++i )
    {
      D( "loudspeaker channel 0", [=]( Desc & d ) { d.ls[ i ].channel = 0; } ); D( "negative loudspeaker channel", [=]( Desc & d ) { d.ls[ i ].channel = -1; } ); D( "empty loudspeaker id", [=]( Desc & d ) { d.ls[ i ].id = ""; } );
      for( std::size_t v = 0; v < 2; ++v ) { D( "loudspeaker and virtual loudspeaker with one id", [=]( Desc & d ) { d.vs[ v ].id = d.ls[ i ].id; } ); D( "loudspeaker and subwoofer with one channel", [=]( Desc & d ) { d.subs[ v ].channel = d.ls[ i ].channel; } ); D( "loudspeaker and subwoofer with one channel", [=]( Desc & d ) { d.ls[ i ].channel = d.subs[ v ].channel; } ); }
      D( "unknown equaliser", [=]( Desc & d ) { d.ls[ i ].eq = "none"; } );
    }
    D( "two virtual loudspeakers with one id", []( Desc & d ) { d.vs[ 1 ].id = d.vs[ 0 ].id; } ); D( "two subwoofers with one channel", []( Desc & d ) { d.subs[ 1 ].channel = d.subs[ 0 ].channel; } );
    for( std::size_t v = 0; v < 2; ++v )
    {
      D( "empty virtual loudspeaker id", [=]( Desc & d ) { d.vs[ v ].id = ""; } ); D( "route to an unknown loudspeaker", [=]( Desc & d ) { d.vs[ v ].routes.push_back( { "nope", 0 } ); } ); D( "route to an empty id", [=]( Desc & d ) { d.vs[ v ].routes.push_back( { "", 0 } ); } ); D( "route to a virtual loudspeaker", [=]( Desc & d ) { d.vs[ v ].routes.push_back( { "v", 0 } ); } ); D( "route to a virtual loudspeaker", [=]( Desc & d ) { d.vs[ v ].routes.push_back( { "w", 0 } ); } );
      D( "subwoofer channel 0", [=]( Desc & d ) { d.subs[ v ].channel = 0; } ); D( "negative subwoofer channel", [=]( Desc & d ) { d.subs[ v ].channel = -3; } ); D( "subwoofer with an unknown loudspeaker", [=]( Desc & d ) { d.subs[ v ].assigned.back() = "nope"; } ); D( "subwoofer with a virtual loudspeaker", [=]( Desc & d ) { d.subs[ v ].assigned.back() = "v"; } ); D( "subwoofer with a virtual loudspeaker", [=]( Desc & d ) { d.subs[ v ].assigned.front() = "w"; } ); D( "subwoofer without loudspeakers", [=]( Desc & d ) { d.subs[ v ].assigned.clear(); d.subs[ v ].weights.clear(); } ); D( "too many subwoofer weights", [=]( Desc & d ) { d.subs[ v ].weights = { 1, 2, 3 }; } ); D( "unknown equaliser", [=]( Desc & d ) { d.subs[ v ].eq = "none"; } );
      for( std::size_t k = 0; k < 3; ++k ) { D( "triplet with an unknown loudspeaker", [=]( Desc & d ) { if( k == 2 && d.twoD ) { d.tri[ v ][ 0 ] = "x"; return; } d.tri[ v ][ k ] = "nope"; } ); D( "triplet member missing", [=]( Desc & d ) { if( k == 2 && d.twoD ) { d.tri[ v ][ 1 ] = ""; return; } d.tri[ v ][ k ] = ""; } ); }
    }
    D( "too few subwoofer weights", []( Desc & d ) { d.subs[ 0 ].weights.pop_back(); } ); D( "two filters with one name", []( Desc & d ) { d.specs[ 1 ].name = d.specs[ 0 ].name; d.ls[ 0 ].eq = "lo"; } ); D( "filter with too many sections", []( Desc & d ) { d.biquads = 1; } ); D( "equaliser without any definition", []( Desc & d ) { d.eqs = false; d.subs[ 0 ].eq = ""; d.ls[ 2 ].eq = ""; } ); D( "subwoofer equaliser without any definition", []( Desc & d ) { d.eqs = false; d.ls[ 0 ].eq = d.ls[ 2 ].eq = ""; } );
    f.push_back( { "two equaliser sections", []( Desc d ) { auto e = elements( d ); e.push_back( e.back() ); return wrap( d, e ); } } ); f.push_back( { "truncated text", []( Desc d ) { std::string s = xml( d ); return s.substr( 0, s.size() - 10 ); } } ); f.push_back( { "empty text", []( Desc ) { return std::string(); } } );
    R( "other root element", "<panningConfiguration", "<otherConfiguration" ); f.push_back( { "other root element", []( Desc d ) { return repl( repl( xml( d ), "<panningConfiguration", "<otherConfiguration" ), "</panningConfiguration", "</otherConfiguration" ); } } );
    R( "dimension 4", " dimension=\"", " dimension=\"4" ); R( "empty dimension", " dimension=\"", " dimension=\"\" x=\"" ); R( "malformed infinity", "infinite=\"false\"", "infinite=\"maybe\"" ); R( "no loudspeaker id", " id=\"b\"", "" ); R( "no loudspeaker channel", " channel=\"3\"", "" ); R( "malformed loudspeaker channel", " channel=\"3\"", " channel=\"x\"" ); R( "fractional loudspeaker channel", " channel=\"3\"", " channel=\"3.5\"" ); R( "no virtual loudspeaker id", " id=\"v\"", "" ); R( "no subwoofer channel", " channel=\"2\"", "" ); R( "malformed subwoofer channel", " channel=\"2\"", " channel=\"two\"" ); R( "no list of loudspeakers", " assignedLoudspeakers=", " other=" );
    R( "two positions", "<cart", "<polar az=\"0\" el=\"0\" r=\"1\"/><cart" ); R( "two positions", "<cart", "<cart x=\"0\" y=\"0\" z=\"1\"/><cart" ); R( "no position", "<cart", "<other" ); R( "no x", "<cart x=", "<cart u=" ); R( "malformed x", "<cart x=\"", "<cart x=\"q" ); R( "no azimuth", "<polar az=", "<polar u=" ); R( "no radius", " r=\"", " u=\"" ); R( "two gains", " gainDB=\"-6\"", " gainDB=\"-6\" gain=\"1\"" ); R( "malformed gain in dB", " gainDB=\"-6\"", " gainDB=\"loud\"" ); R( "malformed gain", " gain=\"", " gain=\"x" ); R( "malformed delay", " delay=\"", " delay=\"x" ); R( "malformed weights", " weights=\"", " weights=\"x" );
    R( "no route id", " lspId=\"a\"", "" ); R( "no route gain", " gainDB=\"-3\"", "" ); R( "malformed route gain", " gainDB=\"-3\"", " gainDB=\"?\"" ); R( "no number of sections", " numberOfBiquads=\"2\"", "" ); R( "malformed number of sections", " numberOfBiquads=\"2\"", " numberOfBiquads=\"two\"" ); R( "no filter name", "<filterSpec name=\"lo\"", "<filterSpec" ); R( "no filter coefficient", " b1=\"", " u=\"" ); R( "malformed filter coefficient", " a1=\"", " a1=\"x" );
    f.push_back( { "no elevation", []( Desc d ) { return d.twoD ? std::string() : repl( xml( d ), " el=\"", " u=\"" ); } } ); f.push_back( { "no z", []( Desc d ) { return d.twoD ? std::string() : repl( xml( d ), " z=\"", " u=\"" ); } } ); f.push_back( { "malformed z", []( Desc d ) { return repl( xml( d ), "<cart", d.twoD ? "<cart z=\"q\"" : "<cart zz=\"" ); } } ); f.push_back( { "malformed elevation", []( Desc d ) { return d.twoD ? repl( xml( d ), "<polar", "<polar el=\"q\"" ) : repl( xml( d ), " el=\"", " el=\"q" ); } } );
  }
  return f;
}
static void fault( Chooser & c )
{
  Desc const d = base( c.flag( "2D" ) ); Fault const & f = faults()[ (std::size_t)c.choose( int( faults().size() ), "fault" ) ]; std::string const x = f.make( d ); bool const reuse = c.flag( "previously loaded" );
  LoudspeakerArray a; if( reuse ) load( c, a, xml( d ) ); bool threw; { Mute m; threw = throws( [&] { a.loadXmlString( x ); } ); } c.compared(); if( !threw ) { c.note( x ); c.fail( "accepted: ", f.name ); }
  load( c, a, xml( d ), "a valid description after an invalid one" ); verify( c, a, d ); // the failure leaves nothing behind
}
// Histories of loads, failed loads, assignments and self-assignments on two arrays.
static Desc variant( int k ) { Desc d = base( k == 1 ); if( k == 2 ) { d.ls.pop_back(); d.vs.clear(); d.subs.clear(); d.eqs = false; d.specs.clear(); d.tri = { { { "a", "b", "a" } } }; for( auto & s : d.ls ) s.eq = ""; d.ls[ 0 ].id = "z"; d.tri[ 0 ][ 1 ] = "z"; d.ls[ 0 ].channel = 9; d.infinite = 1; } else if( k == 1 ) { d.ls[ 0 ].level = {}; d.vs.pop_back(); d.subs.pop_back(); d.ls[ 1 ].channel = 11; d.biquads = 3; } return d; }
static void histories( Chooser & c, int depth )
{
  LoudspeakerArray arr[ 2 ]; int has[ 2 ] = { -1, -1 }; static Desc const v[ 3 ] = { variant( 0 ), variant( 1 ), variant( 2 ) };
  for( int s = 0; s < depth; ++s )
  {
    int const op = c.choose( 6, "operation" ), w = c.choose( 2, "array" );
    if( op < 3 ) { load( c, arr[ w ], xml( v[ op ] ), "reloading" ); has[ w ] = op; }
    else if( op == 3 ) { Mute m; if( !throws( [&] { arr[ w ].loadXmlString( "<panningConfiguration><loudspeaker id=\"a\" channel=\"2\"><cart x=\"1\" y=\"1\" z=\"1\"/></loudspeaker><loudspeaker id=\"a\" channel=\"4\"/></panningConfiguration>" ); } ) ) c.fail( "invalid description accepted" ); has[ w ] = -1; }
    else if( op == 4 ) { if( has[ 1 - w ] < 0 ) return; arr[ w ] = arr[ 1 - w ]; has[ w ] = has[ 1 - w ]; }
    else { if( has[ w ] < 0 ) return; LoudspeakerArray & self = arr[ w ]; arr[ w ] = self; }
    for( int k = 0; k < 2; ++k ) if( has[ k ] >= 0 ) verify( c, arr[ k ], v[ has[ k ] ] );
  }
  c.state( std::to_string( has[ 0 ] ) + "," + std::to_string( has[ 1 ] ) );
}
// Shipped configurations, read independently from the file.
static std::string repoDir() { char const * r = std::getenv( "VERIF_REPO" ); return r ? r : "/repo"; }
static std::vector<std::string> const & shipped() { static std::vector<std::string> f; if( f.empty() ) { for( auto it = boost::filesystem::recursive_directory_iterator( repoDir() + "/config" ); it != boost::filesystem::recursive_directory_iterator(); ++it ) if( it->path().extension() == ".xml" ) f.push_back( it->path().string() ); std::sort( f.begin(), f.end() ); } return f; }
static std::string trim( std::string s ) { std::size_t const a = s.find_first_not_of( " \t" ); if( a == std::string::npos ) return ""; return s.substr( a, s.find_last_not_of( " \t" ) - a + 1 ); }
static void files( Chooser & c )
{
  using boost::property_tree::ptree; std::string const f = shipped()[ (std::size_t)c.choose( int( shipped().size() ), "file" ) ]; c.note( f ); ptree root; boost::property_tree::read_xml( f, root ); auto top = root.get_child_optional( "panningConfiguration" ); if( !top ) return;
  Desc d; d.twoD = top->get<std::string>( "<xmlattr>.dimension", "3" ) == "2"; auto inf = top->get_optional<std::string>( "<xmlattr>.infinite" ); d.infinite = !inf ? -1 : *inf == "true" || *inf == "1"; bool usable = true;
  auto pos = []( ptree const & n ) { if( auto p = n.get_child_optional( "polar" ) ) return Pos{ true, p->get<double>( "<xmlattr>.az" ), p->get<double>( "<xmlattr>.el", 0 ), p->get<double>( "<xmlattr>.r" ) }; auto const & q = n.get_child( "cart" ); return Pos{ false, q.get<double>( "<xmlattr>.x" ), q.get<double>( "<xmlattr>.y" ), q.get<double>( "<xmlattr>.z", 0 ) }; };
  auto lev = []( ptree const & n ) { Level l; if( auto g = n.get_optional<double>( "<xmlattr>.gain" ) ) { l.mode = 1; l.gain = *g; } if( auto g = n.get_optional<double>( "<xmlattr>.gainDB" ) ) { l.mode = 2; l.gain = *g; } if( auto g = n.get_optional<double>( "<xmlattr>.delay" ) ) { l.hasDelay = true; l.delay = *g; } return l; };
  auto split = []( std::string const & s ) { std::vector<std::string> r; std::stringstream t( s ); std::string x; while( std::getline( t, x, ',' ) ) r.push_back( trim( x ) ); return r; };
  for( auto const & e : *top )
  {
    auto const & n = e.second;
    if( e.first == "loudspeaker" ) d.ls.push_back( { trim( n.get<std::string>( "<xmlattr>.id" ) ), n.get<long>( "<xmlattr>.channel" ), pos( n ), lev( n ), n.get<std::string>( "<xmlattr>.eq", "" ) } );
    if( e.first == "virtualspeaker" ) { Virtual v{ trim( n.get<std::string>( "<xmlattr>.id" ) ), pos( n ), {} }; for( auto const & r : n ) if( r.first == "route" ) v.routes.push_back( { trim( r.second.get<std::string>( "<xmlattr>.lspId" ) ), r.second.get<double>( "<xmlattr>.gainDB" ) } ); d.vs.push_back( v ); }
    if( e.first == "triplet" ) d.tri.push_back( { { trim( n.get<std::string>( "<xmlattr>.l1" ) ), trim( n.get<std::string>( "<xmlattr>.l2" ) ), trim( n.get<std::string>( "<xmlattr>.l3", "" ) ) } } );
    if( e.first == "subwoofer" ) { Sub s{ n.get<long>( "<xmlattr>.channel" ), split( n.get<std::string>( "<xmlattr>.assignedLoudspeakers" ) ), {}, lev( n ), n.get<std::string>( "<xmlattr>.eq", "" ) }; for( auto const & x : s.assigned ) usable = usable && x.find( ':' ) == std::string::npos; /* numeric ranges are a remnant of a former format */ if( auto w = n.get_optional<std::string>( "<xmlattr>.weights" ) ) for( auto const & x : split( *w ) ) { if( x.find( ':' ) != std::string::npos ) usable = false; else s.weights.push_back( std::stod( x ) ); } d.subs.push_back( s ); }
    if( e.first == "outputEqConfiguration" ) { d.eqs = true; d.biquads = n.get<int>( "<xmlattr>.numberOfBiquads" ); for( auto const & s : n ) if( s.first == "filterSpec" ) { Spec p{ s.second.get<std::string>( "<xmlattr>.name" ), {} }; for( auto const & b : s.second ) if( b.first == "biquad" ) { double const a0 = b.second.get<double>( "<xmlattr>.a0", 1.0 ); std::array<double, 5> w; char const * k[] = { "b0", "b1", "b2", "a1", "a2" }; for( std::size_t i = 0; i < 5; ++i ) w[ i ] = b.second.get<double>( std::string( "<xmlattr>." ) + k[ i ] ) / a0; p.biquads.push_back( w ); } d.specs.push_back( p ); } }
  }
  if( !usable ) return; LoudspeakerArray a; { Mute m; try { a.loadXmlFile( f ); } catch( std::exception const & e ) { c.note( e.what() ); c.fail( "shipped configuration rejected: ", boost::filesystem::path( f ).filename().string() ); } } verify( c, a, d ); c.state( f );
}
static void fileAccess( Chooser & c )
{
  int const k = c.choose( 3, "case" ); std::string const dir = "/tmp/vx_c18_" + std::to_string( getpid() ); boost::filesystem::create_directory( dir ); std::string const p = dir + "/array.xml"; Desc const d = base(); { std::ofstream o( p ); o << xml( d ); }
  bool threw = false; { Mute m; try { if( k == 0 ) { LoudspeakerArray a( p ); verify( c, a, d ); LoudspeakerArray b; b.loadXmlFile( p ); verify( c, b, d ); } else { std::string const q = k == 1 ? dir + "/none.xml" : dir; threw = throws( [&] { LoudspeakerArray a( q ); } ) && throws( [&] { LoudspeakerArray a; a.loadXmlFile( q ); } ); } } catch( ... ) { boost::filesystem::remove_all( dir ); throw; } }
  boost::filesystem::remove_all( dir ); c.compared(); if( k && !threw ) c.fail( "loading a missing file or a directory succeeded" );
}
// The simple array descriptions of pml::ArrayConfiguration: n entries with every combination of kind, id, gain and delay, loaded into a fresh object, after another file or after a rejected file.
struct Entry { bool sub; std::string id, level, delay; };
static void simple( Chooser & c, int n, int nRich )
{
  static std::vector<std::string> const ids{ "1", "2", "3", "0", "-1", "x", "" }, delays{ "", "0.25", "abc" };
  static std::vector<std::pair<std::string, double> > const levels{ { "gain=\"0.5\"", 0.5 }, { "gainDB=\"-20\"", 0.1 }, { "gain=\"-1.25\"", -1.25 }, { "", NAN }, { "gain=\"1\" gainDB=\"0\"", NAN }, { "gain=\"1\" gainDB=\"x\"", NAN }, { "gain=\"y\" gainDB=\"0\"", NAN }, { "gain=\"1;\"", NAN } };
  static int files = 0; std::string const path = "/tmp/vx_c18s_" + std::to_string( getpid() ) + "_" + std::to_string( files % 4 ) + ".xml"; ++files;
  struct Remover { std::string p; ~Remover() { boost::filesystem::remove( p ); } } rem{ path };
  auto write = [&]( std::string const & t ) { std::ofstream o( path ); o << t; };
  std::map<int, std::pair<double, double> > expect; std::vector<std::size_t> subs; bool ok = true; std::vector<std::size_t> speakerIds; std::string x = "<?xml version=\"1.0\"?>\n<arrayconfiguration>\n";
  for( int i = 0; i < n; ++i )
  {
    bool const rich = i < nRich; bool const sub = c.flag( "subwoofer" ); std::string const id = ids[ (std::size_t)c.choose( rich ? 7 : n + 1, "id" ) ]; std::size_t const lv = (std::size_t)c.choose( rich ? 8 : 4, "level" ); std::string const dl = delays[ (std::size_t)c.choose( rich ? 3 : 2, "delay" ) ];
    x += std::string( "<" ) + ( sub ? "subwoofer" : "speaker" ) + ( id.empty() ? "" : " id=\"" + id + "\"" ) + " " + levels[ lv ].first + ( dl.empty() ? "" : " delay=\"" + dl + "\"" ) + "/>\n";
    int const num = id.empty() || id == "x" ? -2 : std::atoi( id.c_str() ); if( num < 1 || std::isnan( levels[ lv ].second ) || dl == "abc" || expect.count( num ) ) ok = false;
    expect[ num ] = { levels[ lv ].second, dl.empty() ? 0.0 : 0.25 }; if( sub ) subs.push_back( (std::size_t)num );
  }
  x += "</arrayconfiguration>\n"; if( !expect.empty() && ( expect.begin()->first != 1 || expect.rbegin()->first != (int)expect.size() ) ) ok = false;
  visr::pml::ArrayConfiguration a; int const before = c.choose( 3, "before" ); c.note( x );
  std::string const other = "<arrayconfiguration><speaker id=\"2\" gain=\"3\"/><speaker id=\"1\" gain=\"4\" delay=\"1\"/><subwoofer id=\"3\" gain=\"5\"/><subwoofer id=\"4\" gain=\"6\"/></arrayconfiguration>";
  if( before ) { write( before == 1 ? other : repl( other, "id=\"4\" gain=\"6\"", "id=\"6\" gain=\"6\"" ) ); bool const threw = throws( [&] { a.loadXml( path ); } ); if( threw != ( before == 2 ) ) c.fail( "the file loaded first was ", threw ? "rejected" : "accepted" ); if( before == 2 && a.numberOfOutputs() ) c.fail( "a rejected file left ", a.numberOfOutputs(), " outputs" ); }
  write( x ); bool const threw = throws( [&] { a.loadXml( path ); } ); c.compared(); if( threw == ok ) c.fail( threw ? "rejected" : "accepted" );
  if( !ok ) { if( before == 1 ) { expect = { { 1, { 4, 1 } }, { 2, { 3, 0 } }, { 3, { 5, 0 } }, { 4, { 6, 0 } } }; subs = { 3, 4 }; } else { expect.clear(); subs.clear(); } } // unchanged
  std::size_t const nOut = expect.size(); if( a.numberOfOutputs() != nOut || a.numberOfSubwoofers() != subs.size() || a.numberOfLoudspeakers() != nOut - subs.size() || a.subwooferIndices() != subs ) c.fail( a.numberOfOutputs(), " outputs, ", a.numberOfSubwoofers(), " subwoofers, ", a.numberOfLoudspeakers(), " loudspeakers" );
  visr::efl::BasicVector<double> g( nOut, 0 ), d( nOut, 0 ), w( nOut + 1, 0 ); a.getGains( g ); a.getDelays( d ); if( !throws( [&] { a.getGains( w ); } ) || !throws( [&] { a.getDelays( w ); } ) ) c.fail( "a vector of the wrong size was accepted" );
  std::size_t i = 0; for( auto const & e : expect ) { c.compared( 2 ); if( std::abs( g[ i ] - e.second.first ) > 1e-12 || d[ i ] != e.second.second ) c.fail( "output ", i, ": gain ", g[ i ], " delay ", d[ i ] ); ++i; }
  c.state( vx::hashStr( x ) );
}
int main( int argc, char ** argv )
{
  Explorer x( argc, argv ); bool const q = x.quick();
  for( int l = 1; l <= ( q ? 2 : 3 ); ++l ) for( int v = 0; v <= 2; ++v ) for( int s = 0; s <= ( q || l < 3 ? 2 : 1 ); ++s ) { if( q && v + s > 2 && l > 1 ) continue; if( l == 3 && v + s > 2 ) continue; x.add( "orders-" + std::to_string( l ) + "-" + std::to_string( v ) + "-" + std::to_string( s ), [=]( Chooser & c ) { orders( c, l, v, s, q ? std::size_t( l + s + ( v ? 0 : 1 ) ) : 6 ); } ); }
  if( q ) x.add( "orders-3-0-0", []( Chooser & c ) { orders( c, 3, 0, 0, 4 ); } );
  for( int w = 0; w < 7; ++w ) x.add( "attributes-" + std::to_string( w ), [=]( Chooser & c ) { attributes( c, w ); } );
  x.add( "triplets", [=]( Chooser & c ) { triplets( c, q ? 1 : 2 ); } );
  x.add( "identifiers", []( Chooser & c ) { ids( c ); } );
  x.add( "faults", []( Chooser & c ) { fault( c ); } );
  x.add( "histories", [=]( Chooser & c ) { histories( c, q ? 3 : 4 ); } );
  x.add( "shipped", []( Chooser & c ) { files( c ); }, 1 );
  x.add( "simple-1", []( Chooser & c ) { simple( c, 1, 1 ); } ); x.add( "simple-2", [q]( Chooser & c ) { simple( c, 2, q ? 1 : 2 ); } ); x.add( "simple-0", []( Chooser & c ) { simple( c, 0, 0 ); }, 1 ); if( !q ) x.add( "simple-3", []( Chooser & c ) { simple( c, 3, 0 ); } );
  x.add( "files", []( Chooser & c ) { fileAccess( c ); }, 1 );
  return x.run();
}
