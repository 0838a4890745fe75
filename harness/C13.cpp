//! LIBS: visr pml rbbl efl objectmodel kissfft
//! LINK: -lboost_filesystem -lboost_system
// Textual sequences and routing lists: exhaustive enumeration of texts up to a length against an independent parser,
// and of edit histories against an independent table.
#include "explore.hpp"
#include <librbbl/filter_routing.hpp>
#include <librbbl/float_sequence.hpp>
#include <librbbl/index_sequence.hpp>
#include <librbbl/sparse_gain_routing.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <cmath>
#include <map>
using namespace visr;
using vx::Chooser;
using Idx = std::vector<std::size_t>;
using Vals = std::vector<double>;
enum Outcome { Ok, StdError, Foreign };
template<typename F> static Outcome attempt( F f )
{
  try { f(); return Ok; } catch( std::exception const & ) { return StdError; } catch( ... ) { return Foreign; }
}
// ---------------------------------------------------------------- reference parsers
struct Scan
{
  std::string const & s; std::size_t p = 0;
  void ws() { while( p < s.size() && isspace( (unsigned char)s[ p ] ) ) ++p; }
  bool end() { ws(); return p == s.size(); }
  bool lit( char c ) { ws(); if( p < s.size() && s[ p ] == c ) { ++p; return true; } return false; }
  bool digits( std::string & o ) { std::size_t b = p; while( p < s.size() && isdigit( (unsigned char)s[ p ] ) ) o += s[ p++ ]; return p > b; }
  bool integer( long long & v, bool sgn )
  {
    ws(); std::size_t b = p; std::string o;
    if( sgn && p < s.size() && ( s[ p ] == '-' || s[ p ] == '+' ) ) o += s[ p++ ];
    if( !digits( o ) ) { p = b; return false; }
    v = std::stoll( o ); return true;
  }
  bool real( double & v )
  {
    ws(); std::size_t b = p; std::string o;
    if( p < s.size() && ( s[ p ] == '-' || s[ p ] == '+' ) ) o += s[ p++ ];
    bool const whole = digits( o ); bool frac = false;
    if( p < s.size() && s[ p ] == '.' ) { std::size_t q = p; o += s[ p++ ]; frac = digits( o ); if( !whole && !frac ) { p = q; } }
    if( !whole && !frac ) { p = b; return false; }
    if( p < s.size() && ( s[ p ] == 'e' || s[ p ] == 'E' ) )
    {
      std::size_t q = p; std::string e = "e"; ++p;
      if( p < s.size() && ( s[ p ] == '-' || s[ p ] == '+' ) ) e += s[ p++ ];
      if( digits( e ) ) o += e; else p = q;
    }
    v = std::stod( o ); return true;
  }
};
static bool refIndices( std::string const & s, Idx & out )
{
  out.clear(); Scan c{ s };
  if( c.end() ) return true;
  do
  {
    std::vector<long long> n; long long v;
    do { if( !c.integer( v, true ) || v > 2147483647LL || v < -2147483648LL ) return false; n.push_back( v ); } while( c.lit( ':' ) );
    if( n.size() > 3 ) return false;
    long long a = n[ 0 ], z = n.back(), st = n.size() == 3 ? n[ 1 ] : 1;
    if( a < 0 || z < 0 || st == 0 ) return false;
    for( long long k = a; st > 0 ? k <= z : k >= z; k += st ) out.push_back( (std::size_t)k );
  } while( c.lit( ',' ) );
  return c.end();
}
// fuzzy: set if the number of elements of a range hinges on rounding
static bool refFloats( std::string const & s, Vals & out, bool & fuzzy )
{
  out.clear(); fuzzy = false; Scan c{ s };
  do
  {
    Vals n; double v;
    do { if( !c.real( v ) ) return false; n.push_back( v ); } while( c.lit( ':' ) );
    if( n.size() > 3 ) return false;
    double a = n[ 0 ], z = n.back(), st = n.size() == 3 ? n[ 1 ] : 1.0;
    if( n.size() == 1 ) { out.push_back( a ); continue; }
    if( st == 0.0 ) return false;
    double const q = ( z - a ) / st;
    bool const dyadic = std::floor( a * 4096 ) == a * 4096 && std::floor( st * 4096 ) == st * 4096 && std::floor( z * 4096 ) == z * 4096;
    if( !dyadic && std::fabs( q - std::round( q ) ) < 1e-3 ) fuzzy = true;
    for( long k = 0; k <= std::floor( q ); ++k ) out.push_back( a + (double)k * st );
  } while( c.lit( ',' ) );
  return c.end();
}
static std::string text( Chooser & c, std::vector<std::string> const & alphabet, int maxTokens )
{
  int const n = c.choose( maxTokens + 1, "length" ); std::string s;
  for( int i = 0; i < n; ++i ) s += alphabet[ c.choose( (int)alphabet.size(), "token" ) ];
  return s;
}
static std::string show( Idx const & v ) { std::ostringstream o; for( std::size_t i = 0; i < v.size() && i < 20; ++i ) o << v[ i ] << " "; return o.str(); }

static void indexCase( Chooser & c, std::string const & s )
{
  c.note( "index text '", s, "'" );
  Idx ref; bool const valid = refIndices( s, ref );
  Idx got; Outcome const r = attempt( [&] { rbbl::IndexSequence q( s ); got.assign( q.begin(), q.end() ); if( got.size() != q.size() ) throw 1; for( std::size_t i = 0; i < got.size(); ++i ) if( q[ i ] != got[ i ] || q.at( i ) != got[ i ] ) throw 1; } );
  c.compared( ref.size() + 1 );
  if( r == Foreign ) c.fail( "index text '", s, "' raises something that is not a standard exception" );
  if( valid != ( r == Ok ) ) c.fail( "index text '", s, "' ", valid ? "rejected" : "accepted" );
  if( valid && got != ref ) c.fail( "index text '", s, "' yields ", show( got ), " expected ", show( ref ) );
}
template<typename T> static void floatCase( Chooser & c, std::string const & s )
{
  c.note( "float text '", s, "'" );
  { auto e = s.find_first_of( "eE" ); for( ; e != std::string::npos; e = s.find_first_of( "eE", e + 1 ) ) { std::size_t k = e + 1; while( k < s.size() && isdigit( (unsigned char)s[ k ] ) ) ++k; if( k - e > 2 + ( s[ e + 1 ] == '0' ) ) return; } } // beyond the range of the type
  Vals ref; bool fuzzy; bool const valid = refFloats( s, ref, fuzzy );
  std::vector<T> got; Outcome const r = attempt( [&] { rbbl::FloatSequence<T> q( s ); got.assign( q.begin(), q.end() ); if( got.size() != q.size() ) throw 1; } );
  c.compared( ref.size() + 1 );
  if( r == Foreign ) c.fail( "float text '", s, "' raises something that is not a standard exception" );
  if( valid != ( r == Ok ) ) c.fail( "float text '", s, "' ", valid ? "rejected" : "accepted" );
  if( !valid ) return;
  if( fuzzy ? std::llabs( (long long)got.size() - (long long)ref.size() ) > 1 : got.size() != ref.size() ) c.fail( "float text '", s, "' yields ", got.size(), " values, expected ", ref.size() );
  double const eps = sizeof( T ) == 4 ? 1e-6 : 1e-14;
  if( !fuzzy ) for( std::size_t i = 0; i < ref.size(); ++i )
    if( !( std::fabs( got[ i ] - ref[ i ] ) <= eps * ( 1 + (double)i ) * std::max( 1.0, std::fabs( ref[ i ] ) ) ) ) c.fail( "float text '", s, "' element ", i, " is ", got[ i ], " expected ", ref[ i ] );
}
// ---------------------------------------------------------------- JSON routing lists
struct Field { bool present; std::string txt; };
struct Entry { std::size_t a, b, f; double g; };
static std::string json( std::vector<std::vector<std::pair<std::string, Field>>> const & es )
{
  std::ostringstream o; o << "[";
  for( std::size_t i = 0; i < es.size(); ++i )
  {
    o << ( i ? ", {" : " {" ); bool first = true;
    for( auto const & f : es[ i ] ) if( f.second.present ) { o << ( first ? "" : "," ) << " \"" << f.first << "\": \"" << f.second.txt << "\""; first = false; }
    o << " }";
  }
  o << " ]"; return o.str();
}
static bool refColumns( Field const & x, Idx & v ) { return x.present && refIndices( x.txt, v ); }
static bool refGains( Field const & x, Vals & v ) { if( !x.present ) { v = { 1.0 }; return true; } bool fz; return refFloats( x.txt, v, fz ); }
template<typename V> static typename V::value_type at( V const & v, std::size_t i ) { return v.size() == 1 ? v[ 0 ] : v[ i ]; }
static bool fits( std::size_t n, std::size_t total ) { return n == 1 || n == total; }

static Field field( Chooser & c, std::vector<char const *> const & opts, char const * label )
{
  int const k = c.choose( (int)opts.size() + 1, label );
  return k == 0 ? Field{ false, "" } : Field{ true, opts[ k - 1 ] };
}
static void filterJson( Chooser & c, int maxEntries, std::vector<char const *> const & idx, std::vector<char const *> const & gains )
{
  int const n = maxEntries == 1 ? 1 : c.choose( maxEntries + 1, "entries" );
  std::vector<std::vector<std::pair<std::string, Field>>> es; bool valid = true; std::map<std::pair<std::size_t, std::size_t>, Entry> ref;
  for( int i = 0; i < n; ++i )
  {
    Field in = field( c, idx, "input" ), out = field( c, idx, "output" ), fi = field( c, idx, "filter" ), g = field( c, gains, "gain" );
    es.push_back( { { "input", in }, { "output", out }, { "filter", fi }, { "gain", g } } );
    Idx a, b, f; Vals gv;
    if( !valid || !refColumns( in, a ) || !refColumns( out, b ) || !refColumns( fi, f ) || !refGains( g, gv ) ) { valid = false; continue; }
    std::size_t const total = a.size() == 1 ? b.size() : a.size();
    if( !fits( a.size(), total ) || !fits( b.size(), total ) || !fits( f.size(), total ) || !fits( gv.size(), total ) ) { valid = false; continue; }
    for( std::size_t k = 0; k < total; ++k ) ref[ { at( a, k ), at( b, k ) } ] = Entry{ at( a, k ), at( b, k ), at( f, k ), at( gv, k ) };
  }
  std::string const s = json( es ); c.note( s );
  rbbl::FilterRoutingList list{ rbbl::FilterRouting( 7, 8, 9, 0.5 ) };
  Outcome const r = attempt( [&] { list.parseJson( s ); } );
  c.compared( ref.size() + 1 );
  if( r == Foreign ) c.fail( s, " raises something that is not a standard exception" );
  if( valid != ( r == Ok ) ) c.fail( "filter routing ", s, valid ? " rejected" : " accepted" );
  if( !valid )
  {
    if( list.size() != 1 || list.begin()->inputIndex != 7 || list.begin()->gainLinear != 0.5 ) c.fail( "rejected filter routing ", s, " changed the list" );
    return;
  }
  if( list.size() != ref.size() ) c.fail( "filter routing ", s, " yields ", list.size(), " entries, expected ", ref.size() );
  for( auto const & e : ref )
  {
    auto const & x = list.getEntry( e.first.first, e.first.second );
    if( x.inputIndex != e.second.a || x.outputIndex != e.second.b || x.filterIndex != e.second.f || std::fabs( x.gainLinear - e.second.g ) > 1e-12 )
      c.fail( "filter routing ", s, ": entry ", e.second.a, "->", e.second.b, " filter ", e.second.f, " gain ", e.second.g, " is ", x.inputIndex, "->", x.outputIndex, " filter ", x.filterIndex, " gain ", x.gainLinear );
  }
}
static void sparseJson( Chooser & c, int maxEntries, std::vector<char const *> const & idx, std::vector<char const *> const & gains )
{
  int const n = maxEntries == 1 ? 1 : c.choose( maxEntries + 1, "entries" );
  std::vector<std::vector<std::pair<std::string, Field>>> es; bool valid = true; std::map<std::size_t, Entry> ref;
  for( int i = 0; i < n; ++i )
  {
    Field in = field( c, idx, "index" ), out = field( c, idx, "row" ), fi = field( c, idx, "column" ), g = field( c, gains, "gain" );
    es.push_back( { { "index", in }, { "row", out }, { "column", fi }, { "gain", g } } );
    Idx a, b, f; Vals gv;
    if( !valid || !refColumns( in, a ) || !refColumns( out, b ) || !refColumns( fi, f ) || !refGains( g, gv ) ) { valid = false; continue; }
    std::size_t const total = a.size();
    if( !fits( b.size(), total ) || !fits( f.size(), total ) || !fits( gv.size(), total ) ) { valid = false; continue; }
    for( std::size_t k = 0; k < total; ++k ) ref[ a[ k ] ] = Entry{ a[ k ], at( b, k ), at( f, k ), at( gv, k ) };
  }
  std::string const s = json( es ); c.note( s );
  rbbl::SparseGainRoutingList list{ rbbl::SparseGainRouting( 7, 8, 9, 0.5f ) };
  Outcome const r = attempt( [&] { list.parseJson( s ); } );
  c.compared( ref.size() + 1 );
  if( r == Foreign ) c.fail( s, " raises something that is not a standard exception" );
  if( valid != ( r == Ok ) ) c.fail( "gain routing ", s, valid ? " rejected" : " accepted" );
  if( !valid )
  {
    if( list.size() != 1 || list.begin()->entryIndex != 7 || list.begin()->gain != 0.5f ) c.fail( "rejected gain routing ", s, " changed the list" );
    return;
  }
  if( list.size() != ref.size() ) c.fail( "gain routing ", s, " yields ", list.size(), " entries, expected ", ref.size() );
  for( auto const & e : ref )
  {
    auto const & x = list.getEntry( e.first );
    if( x.entryIndex != e.second.a || x.rowIndex != e.second.b || x.columnIndex != e.second.f || std::fabs( x.gain - e.second.g ) > 1e-6 )
      c.fail( "gain routing ", s, ": entry ", e.second.a, " is ", x.entryIndex, ": row ", x.rowIndex, " column ", x.columnIndex, " gain ", x.gain );
  }
}
// ---------------------------------------------------------------- edit histories
static void filterEdits( Chooser & c, int depth )
{
  rbbl::FilterRoutingList l; std::map<std::pair<std::size_t, std::size_t>, Entry> ref;
  for( int d = 0; d < depth; ++d )
  {
    std::size_t const a = c.choose( 2, "in" ), b = c.choose( 2, "out" );
    switch( c.choose( 5, "op" ) )
    {
    case 0: c.note( "add ", a, ",", b ); l.addRouting( a, b, d, 0.25 * d ); ref[ { a, b } ] = { a, b, (std::size_t)d, 0.25 * d }; break;
    case 1: c.note( "add (default gain) ", a, ",", b ); l.addRouting( a, b, d ); ref[ { a, b } ] = { a, b, (std::size_t)d, 1.0 }; break;
    case 2: { c.note( "remove ", a, ",", b ); bool r = l.removeRouting( a, b ); if( r != ( ref.erase( { a, b } ) > 0 ) ) c.fail( "removeRouting reports ", r ); break; }
    case 3: { c.note( "remove entry ", a, ",", b ); bool r = l.removeRouting( rbbl::FilterRouting( a, b, 99, 3.0 ) ); if( r != ( ref.erase( { a, b } ) > 0 ) ) c.fail( "removeRouting(entry) reports ", r ); break; }
    case 4: { c.note( "copy and swap" ); rbbl::FilterRoutingList k( l ), o{ rbbl::FilterRouting( 5, 5, 5 ) }; o.swap( k ); if( k.size() != 1 || k.getEntry( 5, 5 ).filterIndex != 5 || k.getEntry( 5, 5 ).gainLinear != 1.0 ) c.fail( "swap lost an entry" ); l.addRouting( 6, 6, 6 ); l = o; break; }
    }
    if( l.size() != ref.size() || l.empty() != ref.empty() ) c.fail( "list has ", l.size(), " entries, expected ", ref.size() );
    for( std::size_t i = 0; i < 3; ++i ) for( std::size_t o = 0; o < 3; ++o )
    {
      auto const & x = l.getEntry( i, o ); auto it = ref.find( { i, o } );
      if( it == ref.end() ? x.inputIndex != rbbl::FilterRouting::cInvalidIndex || x.outputIndex != rbbl::FilterRouting::cInvalidIndex
                          : x.inputIndex != i || x.outputIndex != o || x.filterIndex != it->second.f || x.gainLinear != it->second.g )
        c.fail( "entry ", i, "->", o, " is filter ", x.filterIndex, " gain ", x.gainLinear );
      c.compared();
    }
    std::ostringstream h; for( auto const & e : l ) h << e.inputIndex << ">" << e.outputIndex << ":" << e.filterIndex << "*" << e.gainLinear << ";"; c.state( h.str() );
  }
}
static void sparseEdits( Chooser & c, int depth )
{
  rbbl::SparseGainRoutingList l; std::map<std::size_t, Entry> ref;
  for( int d = 0; d < depth; ++d )
  {
    std::size_t const k = c.choose( 2, "entry" ), row = c.choose( 2, "row" ), col = c.choose( 2, "column" );
    auto pair = [&]( std::size_t r, std::size_t q ) { bool any = false; for( auto it = ref.begin(); it != ref.end(); ) if( it->second.b == r && it->second.f == q ) { it = ref.erase( it ); any = true; } else ++it; return any; };
    switch( c.choose( 6, "op" ) )
    {
    case 0: c.note( "add ", k, ": ", row, ",", col ); l.addRouting( k, row, col, 0.25f * d ); ref[ k ] = { k, row, col, 0.25 * d }; break;
    case 1: c.note( "add (default gain) ", k, ": ", row, ",", col ); l.addRouting( k, row, col ); ref[ k ] = { k, row, col, 1.0 }; break;
    case 2: { c.note( "remove input ", col, " output ", row ); bool r = l.removeRouting( col, row ); if( r != pair( row, col ) ) c.fail( "removeRouting(in,out) reports ", r ); break; }
    case 3: { c.note( "remove entry ", k ); bool r = l.removeRouting( rbbl::SparseGainRouting( k, 9, 9, 3.0f ) ); if( r != ( ref.erase( k ) > 0 ) ) c.fail( "removeRouting(entry) reports ", r ); break; }
    case 4: { c.note( "remove index ", k ); bool r = l.removeRouting( k ); if( r != ( ref.erase( k ) > 0 ) ) c.fail( "removeRouting(index) reports ", r ); break; }
    case 5: { if( row || col || k ) { c.note( "copy and swap" ); rbbl::SparseGainRoutingList q( l ), o{ rbbl::SparseGainRouting( 5, 5, 5 ) }; o.swap( q ); if( q.size() != 1 || q.getEntry( 5 ).gain != 1.0f ) c.fail( "swap lost an entry" ); l.addRouting( 6, 6, 6 ); l = o; } else { c.note( "clear" ); l.clear(); ref.clear(); } break; }
    }
    if( l.size() != ref.size() || l.empty() != ref.empty() ) c.fail( "list has ", l.size(), " entries, expected ", ref.size() );
    for( std::size_t i = 0; i < 3; ++i )
    {
      auto const & x = l.getEntry( i ); auto it = ref.find( i );
      if( it == ref.end() ? x.entryIndex != rbbl::SparseGainRouting::cInvalidIndex
                          : x.entryIndex != i || x.rowIndex != it->second.b || x.columnIndex != it->second.f || x.gain != (float)it->second.g )
        c.fail( "entry ", i, " is row ", x.rowIndex, " column ", x.columnIndex, " gain ", x.gain );
      c.compared();
    }
    std::ostringstream h; for( auto const & e : l ) h << e.entryIndex << ">" << e.rowIndex << ":" << e.columnIndex << "*" << e.gain << ";"; c.state( h.str() );
  }
}
using SR = pml::SignalRoutingParameter;
static bool refRouting( std::string const & s, std::map<std::size_t, std::size_t> & m )
{
  m.clear(); Scan c{ s }; long long i, o;
  do { if( !c.integer( i, false ) || !c.lit( '=' ) || !c.integer( o, false ) ) return false; m[ (std::size_t)o ] = (std::size_t)i; } while( c.lit( ',' ) || !c.end() );
  return c.end();
}
static void same( Chooser & c, SR const & l, std::map<std::size_t, std::size_t> const & ref, std::string const & what )
{
  std::map<std::size_t, std::size_t> got; for( auto const & e : l ) got[ e.output ] = e.input;
  if( l.size() != ref.size() || got != ref || l.empty() != ref.empty() ) { std::ostringstream o; for( auto e : got ) o << e.second << "=" << e.first << " "; c.fail( what, ": routing is ", o.str() ); }
  for( std::size_t o = 0; o < 4; ++o )
  {
    auto it = ref.find( o ); std::size_t const want = it == ref.end() ? SR::cInvalidIndex : it->second;
    if( l.getInput( o ) != want || l.getEntry( o ).input != want || l.getEntry( o ).output != ( it == ref.end() ? SR::cInvalidIndex : o ) ) c.fail( what, ": query of output ", o, " wrong" );
    std::size_t first = SR::cInvalidIndex; bool any = false; for( auto const & e : ref ) if( e.second == o ) { first = e.first; any = true; break; }
    std::size_t const q = l.getOutput( o ); if( any ? ref.count( q ) == 0 || ref.at( q ) != o : q != SR::cInvalidIndex ) c.fail( what, ": query of input ", o, " returns ", q, " not ", first );
    c.compared( 2 );
  }
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  x.add( "index texts", [=]( Chooser & c ) { indexCase( c, text( c, { "0", "1", "3", ":", ",", "-", " ", "x" }, q ? 6 : 7 ) ); }, 3 );
  x.add( "index range limits", [=]( Chooser & c )
  {
    std::vector<std::string> const v{ "0", "1", "2147483646", "2147483647", "2147483648", "-1", "-2147483648", "2147483645", "1073741824" };
    std::string s; std::string a = v[ c.choose( 9, "a" ) ]; int n = c.choose( 2, "step" ); std::string st = n ? v[ c.choose( 9, "st" ) ] : ""; std::string z = v[ c.choose( 9, "z" ) ];
    long long A = std::stoll( a ), Z = std::stoll( z ), S = n ? std::stoll( st ) : 1;
    if( S != 0 && ( Z - A ) / S > 100 ) return; // would have to produce a huge list
    if( n && Z > 2147483647LL && S - A > 100 && S <= 2147483647LL ) return; // the part before the invalid number denotes a huge list
    indexCase( c, n ? a + ":" + st + ":" + z : a + ":" + z );
  }, 1 );
  x.add( "index list of ranges", [=]( Chooser & c )
  {
    std::vector<std::string> const v{ "0", "2", "4", "-1", "-2", "7" }; std::string s; int const n = 1 + c.choose( 2, "items" );
    for( int i = 0; i < n; ++i ) { if( i ) s += c.flag( "space" ) ? " , " : ","; int const k = 1 + c.choose( 3, "parts" ); for( int j = 0; j < k; ++j ) s += ( j ? ":" : "" ) + v[ c.choose( 6, "v" ) ]; }
    indexCase( c, s );
  }, 2 );
  x.add( "float texts", [=]( Chooser & c ) { bool d = c.flag( "double" ); auto s = text( c, { "1", "-2", ".5", "0.25", "2e0", ":", ",", " ", "x" }, q ? 5 : 6 ); if( d ) floatCase<double>( c, s ); else floatCase<float>( c, s ); }, 3 );
  x.add( "float ranges", [=]( Chooser & c )
  {
    std::vector<std::string> const v{ "0", "1", "-1.5", "0.25", "-0.5", "3.75", "-.125", "+2", "4.", "1e-1", "5E+0" }; std::string s; int const n = 1 + c.choose( q ? 1 : 2, "items" );
    bool const d = c.flag( "double" );
    for( int i = 0; i < n; ++i ) { if( i ) s += ","; int const k = 1 + c.choose( i ? 2 : 4, "parts" ); for( int j = 0; j < k; ++j ) s += ( j ? ":" : "" ) + v[ c.choose( 11, "v" ) ]; }
    if( d ) floatCase<double>( c, s ); else floatCase<float>( c, s );
  }, 3 );
  x.add( "float precision", [=]( Chooser & c )
  {
    std::vector<std::string> const v{ "0.123456789012345", "-0.707106781186548", "3.14159265358979", "0.1", "1e-12", "123456789.125", "16777217" };
    std::string s = v[ c.choose( 7, "v" ) ]; if( c.flag( "second" ) ) s += "," + v[ c.choose( 7, "v2" ) ];
    if( c.flag( "double" ) ) floatCase<double>( c, s ); else floatCase<float>( c, s );
  }, 1 );
  x.add( "float ranges without end", [=]( Chooser & c )
  {
    std::vector<std::string> const v{ "0:inf", "-inf:0", "0:nan", "nan:1", "0:nan:1", "0:inf:1", "33554432:1:33554440", "16777218:1:16777226", "-33554432:1:-33554424", "0:0:1", "1:0:1" };
    std::string const s = v[ c.choose( 11, "v" ) ]; c.note( s );
    Outcome const r = attempt( [&] { rbbl::FloatSequence<float> f( s ); } );
    if( r != StdError ) c.fail( "float text '", s, "' not rejected with a standard exception" );
    c.compared();
  }, 1 );
  x.add( "float sequence printing", [=]( Chooser & c )
  {
    std::vector<double> const v{ 0, 1, -1.5, 0.25, 1000, -0.0625, 123456, 1e-5 }; int const n = c.choose( 4, "n" ); std::vector<float> w; for( int i = 0; i < n; ++i ) w.push_back( (float)v[ c.choose( 8, "v" ) ] );
    std::string const sep = c.flag( "sep" ) ? "," : ", ";
    rbbl::FloatSequence<float> f( w.data(), w.size() ); std::string const s = f.toString( sep ); c.note( s );
    if( n == 0 ) { if( s != "" ) c.fail( "empty sequence printed as '", s, "'" ); return; }
    rbbl::FloatSequence<float> g( s ); if( g.size() != f.size() ) c.fail( "printed text '", s, "' has ", g.size(), " values" );
    for( int i = 0; i < n; ++i ) if( std::fabs( g[ i ] - w[ i ] ) > 1e-6 * std::fabs( w[ i ] ) ) c.fail( "printed text '", s, "' differs" );
    c.compared( n );
  }, 1 );
  std::vector<char const *> const idx{ "0", "1", "0:1", "1,0", "0:2", "2:-1:1", "", "x" }, gains{ "0.5", "0.25,0.75", "1:0.5:2", "" };
  x.add( "filter routing JSON, one entry", [=]( Chooser & c ) { filterJson( c, 1, idx, gains ); }, 2 );
  x.add( "filter routing JSON, several entries", [=]( Chooser & c ) { filterJson( c, 2, { "0", "1:2", "0,1,2" }, { "0.5", "0.25,2" } ); }, 3 );
  x.add( "gain routing JSON, one entry", [=]( Chooser & c ) { sparseJson( c, 1, idx, gains ); }, 2 );
  x.add( "gain routing JSON, several entries", [=]( Chooser & c ) { sparseJson( c, 2, { "0", "1:2", "0,1,2" }, { "0.5", "0.25,2" } ); }, 3 );
  x.add( "routing JSON outside the format", [=]( Chooser & c )
  {
    std::vector<std::string> const v{ "", "[", "{}", "[]", "x", "{ \"input\": 0, \"output\": 0, \"filter\": 0 }", "[ 1 ]", "[ [ 1 ] ]", "[ { } ]", "[ { \"input\": 0, \"output\": 1, \"filter\": 2 } ]", "[ { \"index\": 0, \"row\": 1, \"column\": 2 } ]", "[ { \"input\": 0, \"output\": 1, \"filter\": 2, \"gain\": 0.5 } ]" };
    int const k = c.choose( 12, "v" ); c.note( v[ k ] );
    auto exp = []( int kind, int k ) -> int { if( k == 2 || k == 3 ) return 0; if( kind == 0 ) return k == 9 || k == 11 ? 1 : -1; return k == 10 ? 1 : -1; };
    rbbl::FilterRoutingList f; Outcome r = attempt( [&] { f = rbbl::FilterRoutingList::fromJson( v[ k ] ); } );
    if( r == Foreign || ( exp( 0, k ) < 0 ) != ( r == StdError ) || ( r == Ok && (int)f.size() != exp( 0, k ) ) ) c.fail( "filter routing text '", v[ k ], "' outcome ", (int)r, " entries ", f.size() );
    rbbl::SparseGainRoutingList g; r = attempt( [&] { g = rbbl::SparseGainRoutingList::fromJson( v[ k ] ); } );
    if( r == Foreign || ( exp( 1, k ) < 0 ) != ( r == StdError ) || ( r == Ok && (int)g.size() != exp( 1, k ) ) ) c.fail( "gain routing text '", v[ k ], "' outcome ", (int)r, " entries ", g.size() );
    c.compared( 2 );
  }, 1 );
  x.add( "filter routing edits", [=]( Chooser & c ) { filterEdits( c, q ? 4 : 5 ); }, 3 );
  x.add( "gain routing edits", [=]( Chooser & c ) { sparseEdits( c, q ? 3 : 4 ); }, 3 );
  x.add( "initialiser lists", [=]( Chooser & c )
  {
    int a[ 3 ], b[ 3 ]; for( int i = 0; i < 3; ++i ) { a[ i ] = c.choose( 2, "a" ); b[ i ] = c.choose( 2, "b" ); }
    auto dup = [&]( bool both ) { for( int i = 0; i < 3; ++i ) for( int j = 0; j < i; ++j ) if( a[ i ] == a[ j ] && ( !both || b[ i ] == b[ j ] ) ) return true; return false; };
    using F = rbbl::FilterRouting; using S = rbbl::SparseGainRouting; using E = SR::Entry;
    Outcome r = attempt( [&] { rbbl::FilterRoutingList l{ F( a[ 0 ], b[ 0 ], 0 ), F( a[ 1 ], b[ 1 ], 1 ), F( a[ 2 ], b[ 2 ], 2 ) }; if( l.size() != 3 || l.getEntry( a[ 2 ], b[ 2 ] ).filterIndex != 2 ) throw 1; } );
    if( r != ( dup( true ) ? StdError : Ok ) ) c.fail( "filter routing initialiser outcome ", (int)r );
    r = attempt( [&] { rbbl::SparseGainRoutingList l{ S( a[ 0 ], b[ 0 ], 0 ), S( a[ 1 ], b[ 1 ], 1 ), S( 2 + a[ 2 ], b[ 2 ], 2 ) }; if( l.size() != 3 || l.getEntry( a[ 1 ] ).columnIndex != 1 ) throw 1; } );
    if( r != ( a[ 0 ] == a[ 1 ] ? StdError : Ok ) ) c.fail( "gain routing initialiser outcome ", (int)r );
    r = attempt( [&] { SR l{ E{ 0, (std::size_t)a[ 0 ] }, E{ 1, (std::size_t)a[ 1 ] }, E{ 2, (std::size_t)( 2 + a[ 2 ] ) } }; if( l.size() != 3 || l.getInput( a[ 1 ] ) != 1 ) throw 1; } );
    if( r != ( a[ 0 ] == a[ 1 ] ? StdError : Ok ) ) c.fail( "signal routing initialiser outcome ", (int)r );
    c.compared( 3 );
  }, 2 );
  x.add( "signal routing texts", [=]( Chooser & c )
  {
    std::string const s = text( c, { "0", "2", "=", ",", " ", "x" }, q ? 7 : 8 ); c.note( s );
    std::map<std::size_t, std::size_t> ref, old{ { 3, 1 } }; bool const valid = refRouting( s, ref );
    SR l; l.addRouting( 1, 3 ); bool got = false; Outcome const r = attempt( [&] { got = l.parse( s ); } );
    if( r != Ok || got != valid ) c.fail( "signal routing text '", s, "' ", valid ? "rejected" : "accepted" );
    same( c, l, valid ? ref : old, "after text '" + s + "'" );
  }, 3 );
  x.add( "signal routing text lists", [=]( Chooser & c )
  {
    int const n = 1 + c.choose( 3, "n" ); std::string s = c.flag( "lead" ) ? " " : "";
    for( int i = 0; i < n; ++i ) { if( i ) s += c.pick( std::vector<std::string>{ ",", " ", ", ", " ,", "  ", ",,", "\t" }, "sep" ); s += std::to_string( c.choose( 3, "i" ) ) + ( c.flag( "sp" ) ? " = " : "=" ) + std::to_string( c.choose( 3, "o" ) ); }
    c.note( s ); std::map<std::size_t, std::size_t> ref, old; bool const valid = refRouting( s, ref ); SR l; bool const got = l.parse( s );
    if( got != valid ) c.fail( "signal routing text '", s, "' ", valid ? "rejected" : "accepted" );
    same( c, l, valid ? ref : old, "after text '" + s + "'" );
  }, 3 );
  x.add( "signal routing edits", [=]( Chooser & c )
  {
    SR l; std::map<std::size_t, std::size_t> ref;
    for( int d = 0; d < ( q ? 4 : 5 ); ++d )
    {
      std::size_t const i = c.choose( 2, "in" ), o = c.choose( 3, "out" );
      switch( c.choose( 5, "op" ) )
      {
      case 0: c.note( "add ", i, "=", o ); l.addRouting( i, o ); ref[ o ] = i; break;
      case 1: { c.note( "remove ", i, "=", o ); bool r = l.removeEntry( SR::Entry{ i, o } ), w = ref.count( o ) && ref[ o ] == i; if( w ) ref.erase( o ); if( r != w ) c.fail( "removeEntry(entry) reports ", r ); break; }
      case 2: { c.note( "remove output ", o ); bool r = l.removeEntry( o ); if( r != ( ref.erase( o ) > 0 ) ) c.fail( "removeEntry(output) reports ", r ); break; }
      case 3: { c.note( "copy" ); SR k( l ); k.addRouting( 3, 3 ); SR m; m = l; l.clear(); l.swap( m ); break; }
      case 4: if( o == 0 ) { c.note( "clear" ); l.clear(); ref.clear(); } else { c.note( "parse" ); if( !l.parse( "1=2" ) ) c.fail( "parse failed" ); ref = { { 2, 1 } }; } break;
      }
      same( c, l, ref, "after edit" );
      std::ostringstream h; for( auto const & e : l ) h << e.input << "=" << e.output << ";"; c.state( h.str() );
    }
  }, 3 );
  return x.run();
}
