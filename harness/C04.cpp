//! LIBS: visr pml rbbl efl objectmodel panning kissfft
//! LINK: -lboost_filesystem -lboost_system -lsndfile
#include "explore.hpp"
#include <deque>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/string_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
using namespace visr;
using namespace visr::pml;
using vx::Chooser;

// --- uniform access to a few payload types ---
template<class T> struct Payload;
template<> struct Payload<ScalarParameter<int>>
{
  using P = ScalarParameter<int>;
  static EmptyParameterConfig config() { return EmptyParameterConfig(); }
  static P make( int v ) { return P( v ); }
  static void set( P & p, int v ) { p = v; }
  static int get( P const & p ) { return p.value(); }
  static char const * name() { return "int"; }
};
template<> struct Payload<StringParameter>
{
  using P = StringParameter;
  static EmptyParameterConfig config() { return EmptyParameterConfig(); }
  static P make( int v ) { return P( "message number " + std::to_string( v ) ); }
  static void set( P & p, int v ) { p.assign( "message number " + std::to_string( v ) ); }
  static int get( P const & p ) { std::string s( p.str() ); return s.size() > 15 ? std::stoi( s.substr( 15 ) ) : -1; }
  static char const * name() { return "string"; }
};
template<> struct Payload<VectorParameter<float>>
{
  using P = VectorParameter<float>;
  static VectorParameterConfig config() { return VectorParameterConfig( 3 ); }
  static P make( int v ) { P p( config() ); set( p, v ); return p; }
  static void set( P & p, int v ) { for( int i = 0; i < 3; ++i ) p[ i ] = float( v + 100 * i ); }
  static int get( P const & p ) { if( p.size() != 3 ) return -2; for( int i = 0; i < 3; ++i ) if( p[ i ] != p[ 0 ] + 100 * i ) return -3; return (int)p[ 0 ]; }
  static char const * name() { return "vector"; }
};
template<> struct Payload<MatrixParameter<float>>
{
  using P = MatrixParameter<float>;
  static MatrixParameterConfig config() { return MatrixParameterConfig( 2, 3 ); }
  static P make( int v ) { P p( config() ); set( p, v ); return p; }
  static void set( P & p, int v ) { for( int i = 0; i < 6; ++i ) p( i / 3, i % 3 ) = float( v + 100 * i ); }
  static int get( P const & p ) { if( p.numberOfRows() != 2 || p.numberOfColumns() != 3 ) return -2; for( int i = 0; i < 6; ++i ) if( p( i / 3, i % 3 ) != p( 0, 0 ) + 100 * i ) return -3; return (int)p( 0, 0 ); }
  static char const * name() { return "matrix"; }
};

template<class Proto> std::unique_ptr<Proto> makeProto( bool viaFactory, ParameterType t, ParameterConfigBase const & cfg )
{
  if( !viaFactory ) return std::unique_ptr<Proto>( new Proto( t, cfg ) );
  auto p = CommunicationProtocolFactory::createProtocol( Proto::staticType(), t, cfg );
  Proto * q = dynamic_cast<Proto *>( p.get() );
  if( !q ) return nullptr;
  p.release();
  return std::unique_ptr<Proto>( q );
}

template<class T> void queue( Chooser & c, int depth )
{
  using X = Payload<T>;
  bool fac = c.flag( "factory" );
  auto cfg = X::config();
  auto proto = makeProto<MessageQueueProtocol>( fac, T::staticType(), cfg );
  if( !proto ) c.fail( "factory returned no message queue" );
  MessageQueueProtocol::Input<T> in[ 2 ];
  MessageQueueProtocol::Output<T> out[ 2 ];
  SharedDataProtocol::Input<T> wrongIn; SharedDataProtocol::Output<T> wrongOut;
  std::deque<int> model; int mi = -1, mo = -1, next = 1;
  // most histories start connected; a few exercise (dis)connection first
  if( c.flag( "preconnected" ) ) { proto->connectInput( &in[ 0 ] ); proto->connectOutput( &out[ 0 ] ); mi = mo = 0; }
  for( int d = 0; d < depth; ++d )
  {
    int op = c.choose( 13, "op" );
    bool skip = false;
    switch( op )
    {
    case 0: // enqueue lvalue
      if( mo < 0 ) { skip = true; break; }
      { T v = X::make( next ); out[ mo ].enqueue( v ); X::set( v, 999 ); }
      c.note( "enqueue ", next ); model.push_back( next++ ); break;
    case 1: // enqueue rvalue
      if( mo < 0 ) { skip = true; break; }
      out[ mo ].enqueue( X::make( next ) ); c.note( "enqueue&& ", next ); model.push_back( next++ ); break;
    case 2: // front + pop
      if( mi < 0 ) { skip = true; break; }
      c.note( "pop" );
      if( model.empty() )
      {
        if( !vx::throws( [&] { in[ mi ].front(); } ) ) c.fail( "front() on empty queue succeeded" );
        if( !vx::throws( [&] { in[ mi ].pop(); } ) ) c.fail( "pop() on empty queue succeeded" );
      }
      else
      {
        int g = X::get( in[ mi ].front() );
        if( g != model.front() ) c.fail( "queue delivered ", g, ", expected ", model.front() );
        in[ mi ].pop(); model.pop_front();
      }
      break;
    case 3: if( mi < 0 ) { skip = true; break; } c.note( "clear" ); in[ mi ].clear(); model.clear(); break;
    case 4: case 5:
    {
      int p = op - 4; c.note( "connectInput ", p );
      bool t = vx::throws( [&] { proto->connectInput( &in[ p ] ); } );
      if( t != ( mi >= 0 ) ) c.fail( "connectInput with connected=", mi, " threw=", t );
      if( mi < 0 ) mi = p;
      break;
    }
    case 6: case 7:
    {
      int p = op - 6; c.note( "connectOutput ", p );
      bool t = vx::throws( [&] { proto->connectOutput( &out[ p ] ); } );
      if( t != ( mo >= 0 ) ) c.fail( "connectOutput with connected=", mo, " threw=", t );
      if( mo < 0 ) mo = p;
      break;
    }
    case 8: case 9:
    {
      int p = op - 8; c.note( "disconnectInput ", p );
      if( proto->disconnectInput( &in[ p ] ) != ( mi == p ) ) c.fail( "disconnectInput result wrong" );
      if( mi == p ) mi = -1;
      break;
    }
    case 10: case 11:
    {
      int p = op - 10; c.note( "disconnectOutput ", p );
      if( proto->disconnectOutput( &out[ p ] ) != ( mo == p ) ) c.fail( "disconnectOutput result wrong" );
      if( mo == p ) mo = -1;
      break;
    }
    case 12:
      c.note( "connect ports of another protocol" );
      if( !vx::throws( [&] { proto->connectInput( &wrongIn ); } ) ) c.fail( "input of another protocol accepted" );
      if( !vx::throws( [&] { proto->connectOutput( &wrongOut ); } ) ) c.fail( "output of another protocol accepted" );
      if( proto->disconnectInput( &wrongIn ) || proto->disconnectOutput( &wrongOut ) ) c.fail( "disconnected a foreign port" );
      break;
    }
    if( skip ) { c.note( "(not applicable)" ); return; }
    // observe everything
    if( proto->numberOfElements() != model.size() || proto->empty() != model.empty() ) c.fail( "size ", proto->numberOfElements(), " expected ", model.size() );
    for( int p = 0; p < 2; ++p )
    {
      if( ( in[ p ].getProtocol() == proto.get() ) != ( mi == p ) ) c.fail( "input ", p, " connection state wrong" );
      if( ( out[ p ].getProtocol() == proto.get() ) != ( mo == p ) ) c.fail( "output ", p, " connection state wrong" );
    }
    if( mi >= 0 )
    {
      if( in[ mi ].size() != model.size() || in[ mi ].empty() != model.empty() ) c.fail( "input size wrong" );
      if( !model.empty() && X::get( in[ mi ].front() ) != model.front() ) c.fail( "front is ", X::get( in[ mi ].front() ), " expected ", model.front() );
    }
    if( mo >= 0 && ( out[ mo ].size() != model.size() || out[ mo ].empty() != model.empty() ) ) c.fail( "output size wrong" );
    c.compared( 4 );
    uint64_t h = vx::mix( 1, model.size() ); h = vx::mix( h, mi + 2 ); h = vx::mix( h, mo + 2 ); for( int v : model ) h = vx::mix( h, v ); h = vx::mix( h, next );
    c.state( vx::mix( h, vx::hashStr( X::name() ) ) );
  }
  // drain: every message exactly once and in order
  if( mi < 0 ) { proto->connectInput( &in[ 0 ] ); mi = 0; }
  while( !model.empty() )
  {
    if( in[ mi ].empty() ) c.fail( "message ", model.front(), " lost" );
    int g = X::get( in[ mi ].front() );
    if( g != model.front() ) c.fail( "drain delivered ", g, ", expected ", model.front() );
    in[ mi ].pop(); model.pop_front(); c.compared();
  }
  if( !in[ mi ].empty() ) c.fail( "surplus message in queue" );
}

template<class T> void dbuf( Chooser & c, int depth, int nIn )
{
  using X = Payload<T>;
  bool fac = c.flag( "factory" );
  auto cfg = X::config();
  auto proto = makeProto<DoubleBufferingProtocol>( fac, T::staticType(), cfg );
  if( !proto ) c.fail( "factory returned no double buffering protocol" );
  DoubleBufferingProtocol::Input<T> in[ 3 ];
  DoubleBufferingProtocol::Output<T> out, out2;
  SharedDataProtocol::Input<T> wrongIn; SharedDataProtocol::Output<T> wrongOut;
  const int UNK = -100;
  bool con[ 3 ] = { false, false, false };
  int chg[ 3 ] = { 0, 0, 0 }; // 0/1/UNK
  int front = UNK, back = UNK, next = 1;
  bool oc = true;
  proto->connectOutput( &out );
  int pre = c.choose( nIn + 1, "inputs connected at start" );
  for( int i = 0; i < pre; ++i ) { proto->connectInput( &in[ i ] ); con[ i ] = true; }
  for( int d = 0; d < depth; ++d )
  {
    int op = c.choose( 5 + 3 * nIn, "op" );
    if( op == 0 ) { if( !oc ) return; c.note( "write ", next ); X::set( out.data(), next ); front = next++; }
    else if( op == 1 || op == 2 )
    {
      if( !oc ) return;
      bool copy = op == 2; c.note( copy ? "swap(copy)" : "swap" );
      if( !copy && c.choose( 2, "overload" ) == 1 ) proto->swapBuffers( false ); else if( copy ) out.swapBuffers( true ); else out.swapBuffers();
      back = front; if( !copy ) front = UNK;
      for( int i = 0; i < nIn; ++i ) if( con[ i ] ) chg[ i ] = 1;
    }
    else if( op == 3 )
    {
      c.note( "toggle output connection" );
      if( oc )
      {
        if( !vx::throws( [&] { proto->connectOutput( &out2 ); } ) ) c.fail( "second output accepted" );
        if( proto->disconnectOutput( &out2 ) ) c.fail( "disconnected an output that was not connected" );
        if( !proto->disconnectOutput( &out ) ) c.fail( "disconnectOutput failed" );
        oc = false;
      }
      else { proto->connectOutput( &out ); oc = true; }
    }
    else if( op == 4 )
    {
      c.note( "connect ports of another protocol" );
      if( !vx::throws( [&] { proto->connectInput( &wrongIn ); } ) ) c.fail( "input of another protocol accepted" );
      if( !vx::throws( [&] { proto->connectOutput( &wrongOut ); } ) ) c.fail( "output of another protocol accepted" );
      if( proto->disconnectInput( &wrongIn ) || proto->disconnectOutput( &wrongOut ) ) c.fail( "disconnected a foreign port" );
    }
    else
    {
      int i = ( op - 5 ) / 3, k = ( op - 5 ) % 3;
      if( k == 0 ) { if( !con[ i ] ) return; c.note( "resetChanged ", i ); in[ i ].resetChanged(); chg[ i ] = 0; }
      else if( k == 1 ) { c.note( "connectInput ", i ); bool was = con[ i ]; proto->connectInput( &in[ i ] ); con[ i ] = true; if( !was && chg[ i ] == 1 ) chg[ i ] = UNK; }
      else { c.note( "disconnectInput ", i ); if( proto->disconnectInput( &in[ i ] ) != con[ i ] ) c.fail( "disconnectInput ", i, " result wrong" ); con[ i ] = false; }
    }
    for( int i = 0; i < nIn; ++i )
    {
      if( ( in[ i ].getProtocol() == proto.get() ) != con[ i ] ) c.fail( "input ", i, " connection state wrong" );
      if( !con[ i ] ) continue;
      if( chg[ i ] != UNK && in[ i ].changed() != ( chg[ i ] == 1 ) ) c.fail( "input ", i, " changed()=", in[ i ].changed(), " expected ", chg[ i ] );
      if( back != UNK && X::get( in[ i ].data() ) != back ) c.fail( "input ", i, " sees ", X::get( in[ i ].data() ), " expected ", back );
      c.compared( 2 );
    }
    if( oc && front != UNK && X::get( out.data() ) != front ) c.fail( "output holds ", X::get( out.data() ), " expected ", front );
    uint64_t h = vx::hashStr( X::name(), 7 ); h = vx::mix( h, front + 200 ); h = vx::mix( h, back + 200 ); h = vx::mix( h, oc ); for( int i = 0; i < nIn; ++i ) h = vx::mix( h, con[ i ] * 1000 + chg[ i ] + 200 );
    c.state( h );
  }
}

template<class T> void shared( Chooser & c, int depth, int nIn )
{
  using X = Payload<T>;
  bool fac = c.flag( "factory" );
  auto cfg = X::config();
  auto proto = makeProto<SharedDataProtocol>( fac, T::staticType(), cfg );
  if( !proto ) c.fail( "factory returned no shared data protocol" );
  SharedDataProtocol::Input<T> in[ 3 ];
  SharedDataProtocol::Output<T> out[ 2 ];
  MessageQueueProtocol::Input<T> wrongIn; MessageQueueProtocol::Output<T> wrongOut;
  bool con[ 3 ] = { false, false, false };
  int mo = -1, val = -100, next = 1;
  for( int d = 0; d < depth; ++d )
  {
    int op = c.choose( 6 + 2 * nIn, "op" );
    if( op == 0 ) { if( mo < 0 ) return; c.note( "write ", next ); X::set( out[ mo ].data(), next ); val = next++; }
    else if( op == 1 || op == 2 )
    {
      int p = op - 1; c.note( "connectOutput ", p );
      bool t = vx::throws( [&] { proto->connectOutput( &out[ p ] ); } );
      if( t != ( mo >= 0 ) ) c.fail( "connectOutput threw=", t );
      if( mo < 0 ) mo = p;
    }
    else if( op == 3 || op == 4 )
    {
      int p = op - 3; c.note( "disconnectOutput ", p );
      if( proto->disconnectOutput( &out[ p ] ) != ( mo == p ) ) c.fail( "disconnectOutput result wrong" );
      if( mo == p ) mo = -1;
    }
    else if( op == 5 )
    {
      c.note( "connect ports of another protocol" );
      if( !vx::throws( [&] { proto->connectInput( &wrongIn ); } ) ) c.fail( "input of another protocol accepted" );
      if( !vx::throws( [&] { proto->connectOutput( &wrongOut ); } ) ) c.fail( "output of another protocol accepted" );
    }
    else
    {
      int i = ( op - 6 ) / 2;
      if( ( op - 6 ) % 2 == 0 ) { c.note( "connectInput ", i ); proto->connectInput( &in[ i ] ); con[ i ] = true; }
      else { c.note( "disconnectInput ", i ); if( proto->disconnectInput( &in[ i ] ) != con[ i ] ) c.fail( "disconnectInput result wrong" ); con[ i ] = false; }
    }
    for( int i = 0; i < nIn; ++i )
    {
      if( ( in[ i ].getProtocol() == proto.get() ) != con[ i ] ) c.fail( "input ", i, " connection state wrong" );
      if( con[ i ] && val != -100 && X::get( in[ i ].data() ) != val ) c.fail( "input ", i, " sees ", X::get( in[ i ].data() ), " expected ", val );
      c.compared();
    }
    for( int p = 0; p < 2; ++p ) if( ( out[ p ].getProtocol() == proto.get() ) != ( mo == p ) ) c.fail( "output ", p, " connection state wrong" );
    if( mo >= 0 && val != -100 && X::get( out[ mo ].data() ) != val ) c.fail( "output sees wrong value" );
    uint64_t h = vx::hashStr( X::name(), 9 ); h = vx::mix( h, val + 200 ); h = vx::mix( h, mo + 2 ); for( int i = 0; i < nIn; ++i ) h = vx::mix( h, con[ i ] );
    c.state( h );
  }
}

int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv );
  initialiseParameterLibrary();
  bool q = x.quick();
  for( int d = 1; d <= ( q ? 5 : 6 ); ++d ) x.add( "queue_int_d" + std::to_string( d ), [d]( Chooser & c ) { queue<ScalarParameter<int>>( c, d ); }, 4 );
  x.add( "queue_string", [q]( Chooser & c ) { queue<StringParameter>( c, q ? 4 : 5 ); }, 4 );
  x.add( "queue_matrix", [q]( Chooser & c ) { queue<MatrixParameter<float>>( c, q ? 4 : 5 ); }, 4 );
  for( int d = 1; d <= ( q ? 4 : 5 ); ++d )
  {
    x.add( "dbuf_int_1in_d" + std::to_string( d + 2 ), [d]( Chooser & c ) { dbuf<ScalarParameter<int>>( c, d + 2, 1 ); }, 4 );
    x.add( "dbuf_int_2in_d" + std::to_string( d ), [d]( Chooser & c ) { dbuf<ScalarParameter<int>>( c, d, 2 ); }, 4 );
    x.add( "dbuf_int_3in_d" + std::to_string( d ), [d]( Chooser & c ) { dbuf<ScalarParameter<int>>( c, d, 3 ); }, 4 );
  }
  x.add( "dbuf_vector", [q]( Chooser & c ) { dbuf<VectorParameter<float>>( c, q ? 5 : 6, 1 ); }, 4 );
  x.add( "dbuf_matrix", [q]( Chooser & c ) { dbuf<MatrixParameter<float>>( c, q ? 5 : 6, 1 ); }, 4 );
  x.add( "dbuf_string", [q]( Chooser & c ) { dbuf<StringParameter>( c, q ? 4 : 5, 2 ); }, 4 );
  for( int d = 1; d <= ( q ? 5 : 6 ); ++d ) x.add( "shared_int_d" + std::to_string( d ), [d]( Chooser & c ) { shared<ScalarParameter<int>>( c, d, 2 ); }, 4 );
  x.add( "shared_int_3in", [q]( Chooser & c ) { shared<ScalarParameter<int>>( c, q ? 4 : 5, 3 ); }, 4 );
  x.add( "shared_matrix", [q]( Chooser & c ) { shared<MatrixParameter<float>>( c, q ? 4 : 5, 2 ); }, 4 );
  return x.run();
}
