//! LIBS: visr rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system
// Panning laws: all directions of a grid over enumerated and shipped layouts and listener positions, against an independent solution of the panning equations.
#include "layout.hpp"
#include <boost/filesystem.hpp>
#include <libpanning/AllRAD.h>
#include <libpanning/CAP.h>
#include <libpanning/VBAP.h>
using namespace vx; using namespace layout; using visr::panning::VBAP; using visr::panning::AllRAD; using visr::panning::CAP; using V3 = std::array<double, 3>;
static V3 operator-( V3 const & a, V3 const & b ) { return { { a[ 0 ] - b[ 0 ], a[ 1 ] - b[ 1 ], a[ 2 ] - b[ 2 ] } }; }
static double dot( V3 const & a, V3 const & b ) { return a[ 0 ] * b[ 0 ] + a[ 1 ] * b[ 1 ] + a[ 2 ] * b[ 2 ]; }
static V3 cross( V3 const & a, V3 const & b ) { return { { a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 2 ] * b[ 0 ] - a[ 0 ] * b[ 2 ], a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ] } }; }
static V3 unit( V3 a ) { double const l = std::sqrt( dot( a, a ) ); if( l > 0 ) for( auto & v : a ) v /= l; return a; }
// All gain vectors (regular and virtual loudspeakers) that satisfy the panning equation on one simplex with non-negative gains.
struct Solution { std::vector<double> gains; };
static bool solve( LoudspeakerArray const & a, V3 const & listener, V3 dir, std::vector<Solution> & out )
{
  out.clear(); bool conditioned = true; if( a.is2D() ) dir[ 2 ] = 0; double const len = std::sqrt( dot( dir, dir ) );
  for( std::size_t t = 0; t < a.getNumTriplets(); ++t )
  {
    auto const & tr = a.getTriplet( t ); V3 l[ 3 ]; for( int k = 0; k < 3; ++k ) { if( a.is2D() && k == 2 ) { l[ 2 ] = { { 0, 0, 1 } }; break; } auto const & p = a.getPosition( tr[ (std::size_t)k ] ); l[ k ] = unit( V3{ { p.x, p.y, p.z } } - listener ); }
    double g[ 3 ]; if( a.is2D() ) { double const det = l[ 0 ][ 0 ] * l[ 1 ][ 1 ] - l[ 0 ][ 1 ] * l[ 1 ][ 0 ]; if( std::abs( det ) < 0.02 ) { conditioned = false; continue; } g[ 0 ] = ( dir[ 0 ] * l[ 1 ][ 1 ] - dir[ 1 ] * l[ 1 ][ 0 ] ) / det; g[ 1 ] = ( l[ 0 ][ 0 ] * dir[ 1 ] - l[ 0 ][ 1 ] * dir[ 0 ] ) / det; g[ 2 ] = 0; }
    else { V3 const c12 = cross( l[ 1 ], l[ 2 ] ); double const det = dot( l[ 0 ], c12 ); if( std::abs( det ) < 0.02 ) { conditioned = false; continue; } g[ 0 ] = dot( dir, c12 ) / det; g[ 1 ] = dot( dir, cross( l[ 2 ], l[ 0 ] ) ) / det; g[ 2 ] = dot( dir, cross( l[ 0 ], l[ 1 ] ) ) / det; }
    if( g[ 0 ] < -1e-5 * len || g[ 1 ] < -1e-5 * len || g[ 2 ] < -1e-5 * len ) continue;
    Solution s; s.gains.assign( a.getNumSpeakers(), 0.0 ); for( int k = 0; k < ( a.is2D() ? 2 : 3 ); ++k ) s.gains[ tr[ (std::size_t)k ] ] += g[ k ]; out.push_back( s );
  }
  return conditioned;
}
static void pan( Chooser & c, LoudspeakerArray const & a, VBAP const & v, V3 const & listener, V3 const & src, bool plane )
{
  V3 const dir = plane ? src : src - listener; double const len = std::sqrt( dir[ 0 ] * dir[ 0 ] + dir[ 1 ] * dir[ 1 ] + ( a.is2D() ? 0 : dir[ 2 ] * dir[ 2 ] ) ); std::size_t const R = a.getNumRegularSpeakers(), T = a.getNumSpeakers(); if( len < 1e-3 ) return;
  std::vector<Solution> sol; if( !solve( a, listener, dir, sol ) || sol.empty() ) return; // seen from there, the triangulation does not cover the direction or is degenerate
  float const guard = -77.5f; std::vector<float> u( T + 4, guard ), n( T + 4, guard ); v.calculateGainsUnNormalised( (float)src[ 0 ], (float)src[ 1 ], (float)src[ 2 ], u.data(), plane ); v.calculateGains( (float)src[ 0 ], (float)src[ 1 ], (float)src[ 2 ], n.data(), plane ); c.compared();
  for( std::size_t i = R; i < T + 4; ++i ) if( u[ i ] != guard || n[ i ] != guard ) c.fail( "gains written beyond the regular loudspeakers" );
  for( std::size_t i = 0; i < R; ++i ) if( !std::isfinite( u[ i ] ) || !std::isfinite( n[ i ] ) ) c.fail( "gain of loudspeaker ", i, " is not finite" );
  std::string best; double bestErr = 1e9;
  for( auto const & s : sol )
  {
    std::vector<double> e( s.gains.begin(), s.gains.begin() + (long)R ); for( std::size_t j = R; j < T; ++j ) for( std::size_t i = 0; i < R; ++i ) e[ i ] += (double)a.getReroutingCoefficient( j - R, i ) * s.gains[ j ];
    double p = 0, err = 0; for( double x : e ) p += x * x; p = std::sqrt( p ); for( std::size_t i = 0; i < R; ++i ) { err = std::max( err, std::abs( e[ i ] - u[ i ] ) / len ); if( p > 0.01 * len ) err = std::max( err, 0.02 * std::abs( e[ i ] / p - n[ i ] ) ); }
    if( err < bestErr ) { bestErr = err; std::ostringstream o; for( std::size_t i = 0; i < R; ++i ) o << "loudspeaker " << i << ": " << u[ i ] << " normalised " << n[ i ] << ", expected " << e[ i ] << " and " << e[ i ] / p << "\n"; best = o.str(); }
    if( p > 0.01 * len && err < 2e-4 ) { double q = 0; for( std::size_t i = 0; i < R; ++i ) q += (double)n[ i ] * n[ i ]; if( std::abs( q - 1 ) > 1e-3 ) c.fail( "power of the normalised gains is ", q ); }
  }
  if( bestErr > 2e-4 ) { c.note( "source ", src[ 0 ], ",", src[ 1 ], ",", src[ 2 ], plane ? " (plane wave)" : "", " listener ", listener[ 0 ], ",", listener[ 1 ], ",", listener[ 2 ] ); c.note( best ); c.fail( "gains do not satisfy the panning law (error ", bestErr, ")" ); }
}
static int gcd( int a, int b ) { a = std::abs( a ); b = std::abs( b ); while( b ) { int const t = a % b; a = b; b = t; } return a; }
static std::vector<V3> const & dirs( bool twoD, int n ) { static std::map<std::pair<bool, int>, std::vector<V3>> m; auto & d = m[ { twoD, n } ]; if( d.empty() ) { if( twoD ) for( int k = 0; k < 24 * n; ++k ) { double const w = k * std::acos( -1.0 ) / ( 12.0 * n ); d.push_back( { { std::cos( w ), std::sin( w ), k % 5 ? 0.0 : 0.7 } } ); } else for( int x = -n; x <= n; ++x ) for( int y = -n; y <= n; ++y ) for( int z = -n; z <= n; ++z ) if( gcd( gcd( x, y ), z ) == 1 ) d.push_back( { { (double)x, (double)y, (double)z } } ); } return d; }
static std::vector<V3> const kListen{ { { 0, 0, 0 } }, { { 0.1, -0.05, 0 } }, { { 0.05, 0.1, 1 } }, { { -0.2, 0.1, 0.1 } }, { { 0, 0, 1 } }, { { 0.25, 0, -0.75 } } };
// Seen from the listener, the triplets cover every direction without overlap.
static bool valid( LoudspeakerArray const & a, V3 const & l )
{
  std::vector<Solution> s;
  for( auto d : dirs( a.is2D(), a.is2D() ? 5 : 3 ) ) { if( a.is2D() ) d[ 2 ] = 0; double const len = std::sqrt( dot( d, d ) ); if( !solve( a, l, d, s ) || s.empty() ) return false; int inside = 0; for( auto const & x : s ) { int k = 0; for( double g : x.gains ) k += g > 1e-3 * len; inside += k == ( a.is2D() ? 2 : 3 ); } if( inside > 1 || ( inside == 1 && s.size() > 1 ) ) return false; }
  return true;
}
static void sweep( Chooser & c, LoudspeakerArray const & a, int n, bool allListeners )
{
  V3 const l = c.pick( allListeners ? kListen : std::vector<V3>( kListen.begin(), kListen.begin() + 3 ), "listener" ); bool const plane = c.flag( "plane wave" ), late = c.flag( "listener set later" ); double const scale = c.pick( std::vector<double>{ 1, 0.02, 300 }, "distance" );
  VBAP v0( a, (float)l[ 0 ], (float)l[ 1 ], (float)l[ 2 ] ), v1( a, 0.3f, -0.1f, 0.2f ); if( late ) v1.setListenerPosition( (float)l[ 0 ], (float)l[ 1 ], (float)l[ 2 ] ); VBAP const & v = late ? v1 : v0;
  V3 const lf{ { (float)l[ 0 ], (float)l[ 1 ], (float)l[ 2 ] } }; if( !valid( a, lf ) ) { c.state( "not covered" ); return; } { std::ostringstream o; for( std::size_t i = 0; i < a.getNumSpeakers(); ++i ) o << a.getPosition( i ).x << ',' << a.getPosition( i ).y << ',' << a.getPosition( i ).z << ';'; o << a.getNumRegularSpeakers() << ' ' << l[ 0 ] << ',' << l[ 1 ] << ',' << l[ 2 ] << plane << scale; c.state( o.str() ); }
  for( auto const & d : dirs( a.is2D(), n ) ) pan( c, a, v, lf, { { (float)( scale * d[ 0 ] ), (float)( scale * d[ 1 ] ), (float)( scale * d[ 2 ] ) } }, plane );
  for( std::size_t i = 0; i < a.getNumSpeakers(); ++i ) { auto const & p = a.getPosition( i ); pan( c, a, v, lf, { { p.x, p.y, p.z } }, plane ); } // sources exactly at the loudspeakers
}
static void flip( Chooser & c, Desc & d ) { int const k = d.twoD ? c.choose( 2, "pair order" ) * 3 : c.choose( 6, "triplet order" ); for( auto & t : d.tri ) { static int const P[ 6 ][ 3 ] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 1, 0, 2 }, { 0, 2, 1 }, { 2, 1, 0 } }; auto const o = t; for( int i = 0; i < 3; ++i ) t[ (std::size_t)i ] = o[ (std::size_t)P[ k ][ i ] ]; } if( c.flag( "triplets reversed" ) ) std::reverse( d.tri.begin(), d.tri.end() ); }
static void makeVirtual( Chooser & c, Desc & d, int routes ) // turn one loudspeaker into a virtual one
{
  std::size_t const k = (std::size_t)c.choose( int( d.ls.size() ), "virtual loudspeaker" ); Virtual v{ d.ls[ k ].id, d.ls[ k ].pos, {} }; d.ls.erase( d.ls.begin() + (long)k );
  int const r = c.choose( routes, "routing" ); for( std::size_t i = 0; i < d.ls.size(); ++i ) if( r == 1 || ( r == 2 && i < 2 ) ) v.routes.push_back( { d.ls[ i ].id, -3.0 - 4.0 * double( i ) } ); d.vs.push_back( v );
}
static LoudspeakerArray & make( Chooser & c, Desc const & d, LoudspeakerArray & a ) { Mute m; a.loadXmlString( xml( d ) ); (void)c; return a; }
static void ring( Chooser & c, int n, int step, bool withVirtual, bool small )
{
  Desc d; d.twoD = true; int at = 0; double const radii[] = { 1, 2.5, 0.6 }; bool const mixed = c.flag( "different distances" );
  for( int i = 0; i < n; ++i ) { d.ls.push_back( { "s" + std::to_string( i ), 10 + ( i * 7 ) % 11, { true, (double)at, 0, mixed ? radii[ i % 3 ] : 1 }, {}, "" } ); if( i + 1 < n ) { std::vector<int> o; for( int g = step; g <= 150; g += step ) { int const rest = 360 - at - g, left = n - 1 - i; if( rest >= left * step && rest <= left * 150 ) o.push_back( g ); } if( o.empty() ) return; at += c.pick( o, "gap" ); } }
  for( int i = 0; i < n; ++i ) d.tri.push_back( { { d.ls[ (std::size_t)i ].id, d.ls[ (std::size_t)( ( i + 1 ) % n ) ].id, "" } } );
  for( auto & t : d.tri ) if( c.verbose() ) c.note( t[ 0 ], "-", t[ 1 ] );
  if( withVirtual ) makeVirtual( c, d, small ? 2 : 3 ); if( !small ) { if( c.flag( "pairs swapped" ) ) for( auto & t : d.tri ) std::swap( t[ 0 ], t[ 1 ] ); } else std::swap( d.tri[ 0 ][ 0 ], d.tri[ 0 ][ 1 ] );
  LoudspeakerArray a; sweep( c, make( c, d, a ), 3, true );
}
static Desc solid( int k, bool mixed )
{
  Desc d; double const radii[] = { 1, 2, 0.7, 1.5 }; int n = 0; auto add = [&]( double x, double y, double z ) { V3 const u = unit( { { x, y, z } } ); double const r = mixed ? radii[ n % 4 ] : 1; d.ls.push_back( { "s" + std::to_string( n ), 1 + ( n * 5 ) % 13, { false, u[ 0 ] * r, u[ 1 ] * r, u[ 2 ] * r }, {}, "" } ); ++n; };
  auto tri = [&]( int p, int q, int r ) { d.tri.push_back( { { "s" + std::to_string( p ), "s" + std::to_string( q ), "s" + std::to_string( r ) } } ); };
  if( k == 0 ) { add( 1, 1, 1 ); add( 1, -1, -1 ); add( -1, 1, -1 ); add( -1, -1, 1 ); tri( 0, 1, 2 ); tri( 0, 2, 3 ); tri( 0, 3, 1 ); tri( 1, 3, 2 ); }
  else if( k == 1 ) { for( int x = -1; x <= 1; x += 2 ) for( int y = -1; y <= 1; y += 2 ) for( int z = -1; z <= 1; z += 2 ) add( x, y, z ); int const f[ 6 ][ 4 ] = { { 0, 1, 3, 2 }, { 4, 5, 7, 6 }, { 0, 1, 5, 4 }, { 2, 3, 7, 6 }, { 0, 2, 6, 4 }, { 1, 3, 7, 5 } }; for( auto const & q : f ) { tri( q[ 0 ], q[ 1 ], q[ 2 ] ); tri( q[ 0 ], q[ 2 ], q[ 3 ] ); } }
  else { int const m = k + 1; for( int i = 0; i < m; ++i ) { double const w = ( 17 + i * 360.0 / m + ( i % 2 ) * 9 ) * std::acos( -1.0 ) / 180; add( std::cos( w ), std::sin( w ), i % 2 ? 0.1 : 0 ); } add( 0, 0, 1 ); add( 0.1, 0, -1 ); for( int i = 0; i < m; ++i ) { tri( i, ( i + 1 ) % m, m ); tri( i, m + 1, ( i + 1 ) % m ); } }
  return d;
}
static void solids( Chooser & c, int k, int n, bool small ) { Desc d = solid( k, c.flag( "different distances" ) ); if( c.flag( "virtual" ) ) makeVirtual( c, d, 3 ); if( !small ) flip( c, d ); LoudspeakerArray a; sweep( c, make( c, d, a ), n, !small ); }
static std::string repoDir() { char const * r = std::getenv( "VERIF_REPO" ); return r ? r : "/repo"; }
static void shipped( Chooser & c, int n )
{
  static std::vector<std::string> f; if( f.empty() ) { for( auto it = boost::filesystem::recursive_directory_iterator( repoDir() + "/config" ); it != boost::filesystem::recursive_directory_iterator(); ++it ) if( it->path().extension() == ".xml" ) f.push_back( it->path().string() ); std::sort( f.begin(), f.end() ); }
  std::string const p = f[ (std::size_t)c.choose( int( f.size() ), "file" ) ]; c.note( p ); LoudspeakerArray a; { Mute m; try { a.loadXmlFile( p ); } catch( std::exception const & ) { return; } } if( a.getNumTriplets() == 0 ) return; sweep( c, a, n, true );
}
// Histories: listener moves and calculations; the gains depend on the last listener position alone.
static void histories( Chooser & c, int depth )
{
  Desc d = solid( 3, true ); if( c.flag( "2D" ) ) { d = Desc(); d.twoD = true; for( int i = 0; i < 4; ++i ) d.ls.push_back( { "s" + std::to_string( i ), 5 - i, { true, 90.0 * i + 10, 0, 1.0 + i }, {}, "" } ); for( int i = 0; i < 4; ++i ) d.tri.push_back( { { d.ls[ (std::size_t)i ].id, d.ls[ (std::size_t)( i + 1 ) % 4 ].id, "" } } ); } else { d.vs.push_back( { d.ls.back().id, d.ls.back().pos, { { "s0", -3 } } } ); d.ls.pop_back(); }
  LoudspeakerArray a; make( c, d, a ); V3 l = kListen[ 0 ]; VBAP v( a ); std::size_t const R = a.getNumRegularSpeakers(), T = a.getNumSpeakers(); V3 const src[] = { { { 1, 2, 0.5 } }, { { -3, 0.5, -2 } }, { { 0, 0, 4 } } };
  for( int s = 0; s < depth; ++s )
  {
    int const op = c.choose( 10, "operation" );
    if( op < 4 ) { l = kListen[ (std::size_t)op ]; v.setListenerPosition( (float)l[ 0 ], (float)l[ 1 ], (float)l[ 2 ] ); }
    else { V3 const & p = src[ ( op - 4 ) / 2 ]; bool const plane = ( op - 4 ) & 1; std::vector<float> g( T ), w( T ); VBAP fresh( a, (float)l[ 0 ], (float)l[ 1 ], (float)l[ 2 ] ); v.calculateGains( (float)p[ 0 ], (float)p[ 1 ], (float)p[ 2 ], g.data(), plane ); fresh.calculateGains( (float)p[ 0 ], (float)p[ 1 ], (float)p[ 2 ], w.data(), plane ); c.compared(); for( std::size_t i = 0; i < R; ++i ) if( std::memcmp( &g[ i ], &w[ i ], sizeof( float ) ) ) c.fail( "gain of loudspeaker ", i, " depends on the history: ", g[ i ], " instead of ", w[ i ] ); pan( c, a, v, { { (float)l[ 0 ], (float)l[ 1 ], (float)l[ 2 ] } }, p, plane ); }
  }
}
// Ambisonics decoding via a regular array: product of the regular decoder with the panning gains of its loudspeakers.
static void allrad( Chooser & c )
{
  int const order = c.choose( 4, "order" ), H = ( order + 1 ) * ( order + 1 ), rk = c.choose( 5, "regular array" ), pk = c.choose( 5, "real array" ); std::size_t const al = c.pick( std::vector<std::size_t>{ 0, 4, 16 }, "alignment" ); Desc dr = solid( rk, false ), dp = solid( pk, true ); bool const virt = c.flag( "virtual" ); if( virt ) { dp.vs.push_back( { dp.ls.back().id, dp.ls.back().pos, { { "s0", -3 }, { "s2", 0 } } } ); dp.ls.pop_back(); dr.vs.push_back( { "x", { false, 0, 0, 3 }, {} } ); }
  LoudspeakerArray ar, ap; make( c, dr, ar ); make( c, dp, ap ); std::size_t const R = ar.getNumRegularSpeakers(), L = ap.getNumRegularSpeakers(); visr::efl::BasicMatrix<float> D( (std::size_t)H, R, al ); for( std::size_t i = 0; i < (std::size_t)H; ++i ) for( std::size_t j = 0; j < R; ++j ) D( i, j ) = float( ( i * 7 + j * 5 ) % 11 ) / 4 - 1;
  AllRAD dec( ar, ap, D, (unsigned)order ); V3 l = kListen[ 0 ];
  for( int s = 0; s < 3; ++s )
  {
    VBAP v( ap, (float)l[ 0 ], (float)l[ 1 ], (float)l[ 2 ] ); auto const & g = dec.decodingGains(); if( g.numberOfRows() != (std::size_t)H || g.numberOfColumns() != L ) c.fail( "size of the decoder matrix" );
    std::vector<std::vector<float>> q( R, std::vector<float>( ap.getNumSpeakers() ) ); for( std::size_t j = 0; j < R; ++j ) { auto const & p = ar.getPosition( j ); v.calculateGains( p.x, p.y, p.z, q[ j ].data(), false ); }
    for( std::size_t i = 0; i < (std::size_t)H; ++i ) for( std::size_t k = 0; k < L; ++k ) { double e = 0; for( std::size_t j = 0; j < R; ++j ) e += (double)D( i, j ) * q[ j ][ k ]; c.compared(); if( std::abs( e - g( i, k ) ) > 1e-4 ) c.fail( "decoder gain (", i, ",", k, ") is ", g( i, k ), " instead of ", e ); }
    l = kListen[ (std::size_t)c.choose( 3, "listener" ) ]; dec.setListenerPosition( (float)l[ 0 ], (float)l[ 1 ], (float)l[ 2 ] );
  }
  visr::efl::BasicMatrix<float> bad( (std::size_t)H, R + 1, al ), bad2( (std::size_t)H + 1, R, al ); if( !throws( [&] { AllRAD x( ar, ap, bad, (unsigned)order ); } ) || !throws( [&] { AllRAD x( ar, ap, bad2, (unsigned)order ); } ) ) c.fail( "inconsistent decoder matrix accepted" );
}
// Compensated amplitude panning: the gains reproduce the low-frequency interaural cue of the source, i.e. sum g (r - rI).axis = 0, and the sum of gains follows the distance law; limits are respected.
static void cap( Chooser & c, int k )
{
  Desc d; if( k < 0 ) { d.twoD = true; for( int i = 0; i < -k; ++i ) d.ls.push_back( { "s" + std::to_string( i ), i + 1, { true, -40.0 + 80.0 * i, 0, 1.0 + i }, {}, "" } ); } else d = solid( k, true ); if( c.flag( "virtual" ) ) d.vs.push_back( { "x", { false, 0, 0, -3 }, {} } );
  LoudspeakerArray a; make( c, d, a ); std::size_t const R = a.getNumRegularSpeakers(); V3 const l = c.pick( kListen, "listener" ); int const yaw = c.choose( 8, "yaw" ), pitch = c.choose( 3, "pitch" ), roll = c.choose( 3, "roll" ); bool const inf = c.flag( "plane wave" ); double const q = std::acos( -1.0 ) / 180; double const y = yaw * 45 * q, p = ( pitch - 1 ) * 30 * q, r = ( roll - 1 ) * 25 * q;
  double const maxGain = c.pick( std::vector<double>{ 10, 1.2 }, "limit" ); CAP cap; std::vector<visr::panning::XYZ> src; for( auto const & s : dirs( false, 1 ) ) src.push_back( visr::panning::XYZ( (float)s[ 0 ] * 2, (float)s[ 1 ] * 2, (float)s[ 2 ] * 2, inf ) );
  bool const sourcesFirst = c.flag( "sources set first" ); if( sourcesFirst ) cap.setNumSources( src.size() ); cap.setLoudspeakerArray( &a ); if( !sourcesFirst ) cap.setNumSources( src.size() ); cap.setSourcePositions( src.data() ); cap.setMaxGain( (float)maxGain ); cap.setListenerPosition( (float)l[ 0 ], (float)l[ 1 ], (float)l[ 2 ] ); cap.setListenerOrientation( (float)y, (float)p, (float)r, false ); cap.calcGains();
  V3 const axis{ { std::cos( y ) * std::sin( p ) * std::sin( r ) - std::sin( y ) * std::cos( r ), std::sin( y ) * std::sin( p ) * std::sin( r ) + std::cos( y ) * std::cos( r ), -std::cos( p ) * std::sin( r ) } };
  for( std::size_t j = 0; j < src.size(); ++j )
  {
    V3 const s{ { src[ j ].x, src[ j ].y, src[ j ].z } }; V3 const rel = inf ? s : s - l; V3 const I = unit( rel ); double sum = 0, cue = 0, peak = 0, b = 0, cc = 0, abs = 0; double const dist = std::sqrt( dot( rel, rel ) ), dist0 = std::sqrt( dot( s, s ) );
    for( std::size_t i = 0; i < R; ++i ) { auto const & pp = a.getPosition( i ); double const ai = dot( axis, unit( V3{ { pp.x, pp.y, pp.z } } - l ) - I ), g = cap.getGains()( j, i ); b += ai; cc += ai * ai; sum += g; cue += g * ai; peak = std::max( peak, g ); abs += std::abs( g ); if( R >= 3 && !std::isfinite( g ) && cc * double( R ) - b * b > 0.05 ) c.fail( "gain is not finite" ); }
    if( R == 1 ) { if( sum != 1 ) c.fail( "gain of a single loudspeaker is ", sum ); continue; }
    double const det = cc * double( R ) - b * b; if( det < 0.05 ) continue; c.compared(); if( peak > maxGain * 1.0001 ) c.fail( "gain limit exceeded: ", peak );
    if( std::abs( cue ) > 1e-3 * ( 1 + abs ) && R >= 3 ) { c.note( "source ", s[ 0 ], ",", s[ 1 ], ",", s[ 2 ] ); c.fail( "the interaural cue of source ", j, " is off by ", cue ); }
    if( R >= 3 ) { double const want = dist0 / ( dist + 0.01 ); bool const limited = peak > maxGain * 0.999; if( limited ? sum > want * 1.001 + 1e-3 : std::abs( sum - want ) > 2e-3 * ( 1 + abs ) ) c.fail( "sum of the gains of source ", j, " is ", sum, " instead of ", want ); }
    if( R == 2 ) { double const scale = sum != 0 ? sum : 1; if( std::abs( cue ) > 2e-3 * ( 1 + abs ) ) c.fail( "the interaural cue of source ", j, " is off by ", cue, " with two loudspeakers (sum ", scale, ")" ); }
  }
}
int main( int argc, char ** argv )
{
  Explorer x( argc, argv ); bool const q = x.quick();
  for( int n = 3; n <= ( q ? 4 : 5 ); ++n ) for( int v = 0; v < 2; ++v ) x.add( "ring-" + std::to_string( n ) + ( v ? "-virtual" : "" ), [=]( Chooser & c ) { ring( c, n, n == 3 ? 30 : n == 4 ? ( q ? 50 : 30 ) : 40, v, q || n == 5 ); } );
  for( int k = 0; k < ( q ? 4 : 6 ); ++k ) x.add( "solid-" + std::to_string( k ), [=]( Chooser & c ) { solids( c, k, q ? 2 : 4, q ); } );
  x.add( "shipped", [=]( Chooser & c ) { shipped( c, q ? 2 : 6 ); } );
  x.add( "histories", [=]( Chooser & c ) { histories( c, q ? 3 : 4 ); } );
  x.add( "allrad", []( Chooser & c ) { allrad( c ); } );
  for( int k : { -1, -2, -3, 0, 1, 3 } ) x.add( "cap-" + std::to_string( k ), [=]( Chooser & c ) { cap( c, k ); } );
  return x.run();
}
