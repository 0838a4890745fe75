//! LIBS: rbbl efl objectmodel kissfft
//! LINK: -lboost_filesystem -lboost_system
#include "explore.hpp"
#include <librbbl/object_channel_allocator.hpp>
#include <libobjectmodel/object.hpp>
using namespace visr;
using vx::Chooser;
using Id = objectmodel::ObjectId;

static void alloc( Chooser & c, std::size_t nCh, int universe, int depth, bool allOrders )
{
  // ids are deliberately not contiguous nor sorted
  static const Id ids[] = { 7, 2, 100, 3, 55, 0 };
  rbbl::ObjectChannelAllocator a( nCh );
  std::map<Id, std::size_t> prev; // model: object -> channel
  auto observe = [&]() {
    std::map<Id, std::size_t> m;
    for( std::size_t ch = 0; ch < nCh; ++ch )
    {
      Id o = a.getObjectForChannel( ch );
      if( o == objectmodel::Object::cInvalidObjectId ) continue;
      if( m.count( o ) ) c.fail( "object ", o, " holds channels ", m[ o ], " and ", ch );
      m[ o ] = ch;
    }
    return m;
  };
  if( a.maxChannels() != nCh ) c.fail( "maxChannels wrong" );
  for( int d = 0; d < depth; ++d )
  {
    std::vector<Id> objs;
    if( allOrders )
    {
      std::vector<int> rest; for( int i = 0; i < universe; ++i ) rest.push_back( i );
      while( objs.size() < nCh + 1 && !rest.empty() )
      {
        int k = c.choose( (int)rest.size() + 1, "next object" );
        if( k == 0 ) break;
        objs.push_back( ids[ rest[ k - 1 ] ] ); rest.erase( rest.begin() + k - 1 );
      }
    }
    else
    {
      int mask = c.choose( 1 << universe, "subset" );
      for( int i = 0; i < universe; ++i ) if( mask & ( 1 << i ) ) objs.push_back( ids[ i ] );
    }
    { std::ostringstream s; for( Id i : objs ) s << i << " "; c.note( "setObjects { ", s.str(), "}" ); }
    bool tooMany = objs.size() > nCh;
    bool t = vx::throws( [&] { a.setObjects( objs ); } );
    if( t != tooMany ) c.fail( "setObjects threw=", t, " with ", objs.size(), " objects on ", nCh, " channels" );
    std::map<Id, std::size_t> m = observe();
    if( tooMany ) { if( m != prev ) c.fail( "rejected object set changed the allocation" ); }
    else
    {
      if( m.size() != objs.size() ) c.fail( m.size(), " objects hold channels, expected ", objs.size() );
      for( Id o : objs )
      {
        if( !m.count( o ) ) c.fail( "object ", o, " has no channel although ", nCh - m.size(), " are free" );
        if( prev.count( o ) && prev[ o ] != m[ o ] ) c.fail( "object ", o, " moved from channel ", prev[ o ], " to ", m[ o ] );
      }
    }
    if( a.numberUsedChannels() != m.size() ) c.fail( "numberUsedChannels ", a.numberUsedChannels(), " expected ", m.size() );
    prev = m;
    c.compared( nCh + 1 );
    uint64_t h = vx::mix( 3, nCh ); for( auto & p : m ) { h = vx::mix( h, p.first ); h = vx::mix( h, p.second ); }
    c.state( h );
  }
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv );
  bool q = x.quick();
  for( std::size_t n = 0; n <= 3; ++n ) x.add( "orders_ch" + std::to_string( n ), [n, q]( Chooser & c ) { alloc( c, n, 4, n >= 3 ? ( q ? 3 : 4 ) : ( n == 2 ? ( q ? 4 : 5 ) : ( q ? 4 : 6 ) ), true ); }, 3 );
  for( std::size_t n = 1; n <= 5; ++n ) x.add( "subsets_ch" + std::to_string( n ), [n, q]( Chooser & c ) { alloc( c, n, n <= 3 ? 4 : 5, n <= 3 ? ( q ? 4 : 5 ) : ( q ? 3 : 4 ), false ); }, 1 );
  x.add( "subsets6", [q]( Chooser & c ) { alloc( c, 6, 6, q ? 3 : 4, false ); }, 1 );
  return x.run();
}
