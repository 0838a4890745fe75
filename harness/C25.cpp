//! LIBS: visr rbbl efl objectmodel kissfft
//! LINK: -lboost_filesystem -lboost_system
#include "explore.hpp"
#include <libvisr/channel_list.hpp>
using namespace visr;
using vx::Chooser;
using L = std::vector<std::size_t>;

// reference expansion of [start, end) with step; false if invalid
static bool expand( long s, long e, long st, L & out )
{
  out.clear();
  if( st == 0 ) return false;
  if( st > 0 ? e < s : e > s ) return false;
  if( st > 0 ) for( long v = s; v < e; v += st ) out.push_back( v );
  else for( long v = s; v > e; v += st ) out.push_back( v );
  return true;
}
static std::string str( L const & l ) { std::ostringstream o; for( auto v : l ) o << v << " "; return o.str(); }
static L content( ChannelList const & l ) { return L( l.begin(), l.end() ); }
// reference parser for the printed form: comma separated a | a:b | a:step:b, both ends inclusive
static bool parse( std::string const & s, L & out )
{
  out.clear();
  if( s.empty() ) return true;
  std::istringstream is( s ); std::string tok;
  while( std::getline( is, tok, ',' ) )
  {
    std::vector<long> n; std::istringstream t( tok ); std::string p;
    while( std::getline( t, p, ':' ) ) { if( p.empty() ) return false; n.push_back( std::stol( p ) ); }
    if( n.size() == 1 ) out.push_back( n[ 0 ] );
    else
    {
      long a = n[ 0 ], b = n.back(), st = n.size() == 3 ? n[ 1 ] : 1;
      if( st == 0 ) return false;
      if( st > 0 ) for( long v = a; v <= b; v += st ) out.push_back( v ); else for( long v = a; v >= b; v += st ) out.push_back( v );
    }
  }
  return true;
}
static void checkPrint( Chooser & c, ChannelList const & l )
{
  std::ostringstream o; o << l;
  L back; 
  // Runs of equal indices have no range notation; only texts that denote a finite range are compared.
  L cont = content( l );
  for( std::size_t i = 0; i + 2 < cont.size(); ++i ) if( cont[ i ] == cont[ i + 1 ] && cont[ i + 1 ] == cont[ i + 2 ] ) return;
  if( !parse( o.str(), back ) || back != cont ) c.fail( "list { ", str( cont ), "} printed as '", o.str(), "'" );
  c.compared();
}
static void checkRange( Chooser & c, ChannelRange const & r, L const & ref )
{
  if( !r.isValid() ) c.fail( "valid range reports invalid" );
  if( r.size() != ref.size() ) c.fail( "range ", r.start(), ":", r.end(), ":", r.step(), " size ", r.size(), " expected ", ref.size() );
  ChannelRange const & cr = r; ChannelRange mr = r;
  for( std::size_t i = 0; i < ref.size(); ++i )
    if( cr[ i ] != ref[ i ] || cr.at( i ) != ref[ i ] || mr[ i ] != ref[ i ] || mr.at( i ) != ref[ i ] ) c.fail( "range element ", i, " is ", cr[ i ], " expected ", ref[ i ] );
  for( std::size_t k = 0; k < 3; ++k )
    if( !vx::throws( [&] { cr.at( ref.size() + k ); } ) || !vx::throws( [&] { mr.at( ref.size() + k ); } ) ) c.fail( "at() beyond the end of range ", r.start(), ":", r.end(), ":", r.step(), " succeeded" );
  c.compared( ref.size() + 1 );
}
static void ranges( Chooser & c, int N, int S )
{
  long s = c.choose( N, "start" ), e = c.choose( N, "end" ), st = c.choose( 2 * S + 1, "step" ) - S;
  c.note( "range ", s, " ", e, " step ", st );
  L ref; bool ok = expand( s, e, st, ref );
  if( ChannelRange::isValid( s, e, st ) != ok ) c.fail( "isValid() wrong" );
  bool t = vx::throws( [&] { ChannelRange r( s, e, st ); } );
  if( t == ok ) c.fail( "construction threw=", t );
  ChannelRange r2( 3, 5 );
  t = vx::throws( [&] { r2.set( s, e, st ); } );
  if( t == ok ) c.fail( "set() threw=", t );
  if( ok )
  {
    ChannelRange r( s, e, st );
    if( r.start() != (std::size_t)s || r.end() != (std::size_t)e || r.step() != st ) c.fail( "accessors wrong" );
    checkRange( c, r, ref ); checkRange( c, r2, ref );
    if( st == 1 ) { checkRange( c, ChannelRange( s, e ), ref ); ChannelRange r3( 9, 1, -2 ); r3.set( s, e ); checkRange( c, r3, ref ); }
    ChannelList l( r );
    if( content( l ) != ref || l.size() != ref.size() ) c.fail( "list from range is { ", str( content( l ) ), "} expected { ", str( ref ), "}" );
    checkPrint( c, l );
  }
  else if( r2.start() != 3 || r2.end() != 5 || r2.step() != 1 ) c.fail( "rejected set() changed the range" );
  checkRange( c, ChannelRange( s ), L{ (std::size_t)s } );
  checkRange( c, ChannelRange(), L{} );
  c.state( str( ref ) );
}
static void lists( Chooser & c, int n )
{
  std::vector<std::pair<ChannelRange, L>> pool;
  for( auto t : std::vector<std::vector<long>>{ { 0, 0, 1 }, { 0, 3, 1 }, { 2, 7, 2 }, { 5, 1, -2 }, { 4, 4, 1 }, { 3, 0, -1 }, { 1, 2, 1 }, { 6, 6, -1 }, { 0, 9, 4 } } )
  { L l; expand( t[ 0 ], t[ 1 ], t[ 2 ], l ); pool.push_back( { ChannelRange( t[ 0 ], t[ 1 ], t[ 2 ] ), l } ); }
  std::vector<int> k; L ref;
  for( int i = 0; i < n; ++i ) { k.push_back( c.choose( (int)pool.size(), "range" ) ); ref.insert( ref.end(), pool[ k[ i ] ].second.begin(), pool[ k[ i ] ].second.end() ); }
  ChannelList l = n == 1 ? ChannelList( std::initializer_list<ChannelRange>{ pool[ k[ 0 ] ].first } )
                : n == 2 ? ChannelList( { pool[ k[ 0 ] ].first, pool[ k[ 1 ] ].first } )
                         : ChannelList( { pool[ k[ 0 ] ].first, pool[ k[ 1 ] ].first, pool[ k[ 2 ] ].first } );
  c.note( "list of ranges -> ", str( ref ) );
  if( content( l ) != ref || l.size() != ref.size() ) c.fail( "list is { ", str( content( l ) ), "} expected { ", str( ref ), "}" );
  checkPrint( c, l );
  c.state( str( ref ) );
}
static void values( Chooser & c, int n, int N )
{
  L v; for( int i = 0; i < n; ++i ) v.push_back( c.choose( N, "value" ) );
  c.note( "list of values ", str( v ) );
  ChannelList a( v ), b( v.begin(), v.end() );
  if( content( a ) != v || content( b ) != v || a.size() != v.size() ) c.fail( "list of values wrong" );
  ChannelList const & ca = a;
  for( std::size_t i = 0; i < v.size(); ++i ) if( a[ i ] != v[ i ] || a.at( i ) != v[ i ] || ca[ i ] != v[ i ] || ca.at( i ) != v[ i ] ) c.fail( "element ", i, " wrong" );
  if( !vx::throws( [&] { a.at( v.size() ); } ) || !vx::throws( [&] { ca.at( v.size() ); } ) ) c.fail( "at() beyond the end succeeded" );
  if( n == 2 && content( ChannelList( { v[ 0 ], v[ 1 ] } ) ) != v ) c.fail( "initialiser list wrong" );
  checkPrint( c, a );
  c.compared( n );
  c.state( str( v ) );
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv );
  bool q = x.quick();
  x.add( "ranges", [q]( Chooser & c ) { ranges( c, q ? 14 : 40, q ? 15 : 41 ); }, 1 );
  for( int n = 1; n <= 3; ++n ) x.add( "lists" + std::to_string( n ), [n]( Chooser & c ) { lists( c, n ); }, 1 );
  for( int n = 0; n <= ( q ? 5 : 6 ); ++n ) x.add( "values" + std::to_string( n ), [n]( Chooser & c ) { values( c, n, 6 ); }, 1 );
  return x.run();
}
