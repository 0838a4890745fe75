//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
// Rotations, positions, listener poses, tracker messages and listener compensation: exhaustive grids and histories against 3x3 rotation matrices in double precision.
#include "layout.hpp"
#include "runner.hpp"
#include <libefl/cartesian_spherical_conversion.hpp>
#include <libefl/degree_radian_conversion.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/string_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/position_3d.hpp>
#include <librbbl/quaternion.hpp>
#include <librcl/listener_compensation.hpp>
#include <librcl/position_decoder.hpp>
using namespace vx; using layout::LoudspeakerArray; using V = std::array<double, 3>; using R = std::array<V, 3>; static double const kPi = std::acos( -1.0 ); static double rad( double d ) { return d * kPi / 180; }
static R mul( R const & a, R const & b ) { R r{}; for( std::size_t i = 0; i < 3; ++i ) for( std::size_t j = 0; j < 3; ++j ) for( std::size_t k = 0; k < 3; ++k ) r[ i ][ j ] += a[ i ][ k ] * b[ k ][ j ]; return r; }
static V mul( R const & a, V const & v ) { V r{}; for( std::size_t i = 0; i < 3; ++i ) for( std::size_t k = 0; k < 3; ++k ) r[ i ] += a[ i ][ k ] * v[ k ]; return r; }
static R transpose( R const & a ) { R r{}; for( std::size_t i = 0; i < 3; ++i ) for( std::size_t j = 0; j < 3; ++j ) r[ i ][ j ] = a[ j ][ i ]; return r; }
static V add( V a, V const & b ) { for( std::size_t i = 0; i < 3; ++i ) a[ i ] += b[ i ]; return a; }
static double dot( V const & a, V const & b ) { return a[ 0 ] * b[ 0 ] + a[ 1 ] * b[ 1 ] + a[ 2 ] * b[ 2 ]; }
static R const kId{ { { { 1, 0, 0 } }, { { 0, 1, 0 } }, { { 0, 0, 1 } } } };
static R fromYpr( double y, double p, double r )
{
  R const z{ { { { std::cos( y ), -std::sin( y ), 0 } }, { { std::sin( y ), std::cos( y ), 0 } }, { { 0, 0, 1 } } } }, q{ { { { std::cos( p ), 0, std::sin( p ) } }, { { 0, 1, 0 } }, { { -std::sin( p ), 0, std::cos( p ) } } } }, x{ { { { 1, 0, 0 } }, { { 0, std::cos( r ), -std::sin( r ) } }, { { 0, std::sin( r ), std::cos( r ) } } } };
  return mul( mul( z, q ), x );
}
static R fromAxis( V a, double t ) { double const l = std::sqrt( dot( a, a ) ); for( auto & x : a ) x /= l; double const s = std::sin( t ), k = 1 - std::cos( t ); R const m{ { { { 0, -a[ 2 ], a[ 1 ] } }, { { a[ 2 ], 0, -a[ 0 ] } }, { { -a[ 1 ], a[ 0 ], 0 } } } }, m2 = mul( m, m ); R r = kId; for( std::size_t i = 0; i < 3; ++i ) for( std::size_t j = 0; j < 3; ++j ) r[ i ][ j ] += s * m[ i ][ j ] + k * m2[ i ][ j ]; return r; }
static double angleOf( R const & a ) { V const ax{ { a[ 2 ][ 1 ] - a[ 1 ][ 2 ], a[ 0 ][ 2 ] - a[ 2 ][ 0 ], a[ 1 ][ 0 ] - a[ 0 ][ 1 ] } }; return std::atan2( std::sqrt( dot( ax, ax ) ) / 2, ( a[ 0 ][ 0 ] + a[ 1 ][ 1 ] + a[ 2 ][ 2 ] - 1 ) / 2 ); }
template<typename F> struct Tol; template<> struct Tol<float> { static constexpr double t = 3e-6, lock = 3e-3; }; template<> struct Tol<double> { static constexpr double t = 1e-13, lock = 1e-6; };
template<typename F> R matrix( rbbl::Quaternion<F> const & q ) { double const w = q.w(), x = q.x(), y = q.y(), z = q.z(); return R{ { { { 1 - 2 * ( y * y + z * z ), 2 * ( x * y - w * z ), 2 * ( x * z + w * y ) } }, { { 2 * ( x * y + w * z ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - w * x ) } }, { { 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), 1 - 2 * ( x * x + y * y ) } } } }; }
static void near( Chooser & c, double got, double want, double tol, char const * what ) { c.compared(); if( !( std::abs( got - want ) <= tol ) ) c.fail( what, ": ", got, " instead of ", want ); }
static void near( Chooser & c, R const & g, R const & w, double tol, char const * what ) { c.compared(); for( std::size_t i = 0; i < 3; ++i ) for( std::size_t j = 0; j < 3; ++j ) if( !( std::abs( g[ i ][ j ] - w[ i ][ j ] ) <= tol ) ) c.fail( what, ": matrix element ", i, ",", j, " is ", g[ i ][ j ], " instead of ", w[ i ][ j ] ); }
template<typename F> void near( Chooser & c, rbbl::Position3D<F> const & g, V const & w, double tol, char const * what ) { c.compared(); V const v{ { (double)g.x(), (double)g.y(), (double)g.z() } }; for( std::size_t i = 0; i < 3; ++i ) if( !( std::abs( v[ i ] - w[ i ] ) <= tol ) || g[ i ] != (F)v[ i ] ) c.fail( what, ": coordinate ", i, " is ", v[ i ], " instead of ", w[ i ] ); }
template<typename F> double pitchMargin( rbbl::Quaternion<F> const & q ) { double const s = 2 * ( (double)q.w() * q.y() - (double)q.z() * q.x() ); return std::sqrt( std::max( 0.0, 1 - s * s ) ); }
template<typename F> void same( Chooser & c, rbbl::Quaternion<F> const & q, R const & m, char const * what ) // all representations of the rotation
{
  double const t = Tol<F>::t; near( c, matrix( q ), m, t, what ); near( c, q.norm(), 1, t, "norm" ); near( c, q.normSquare(), 1, t, "squared norm" ); double const mg = pitchMargin( q ), ty = mg > 0.1 ? 5 * t : Tol<F>::lock;
  near( c, fromYpr( q.yaw(), q.pitch(), q.roll() ), m, ty, "yaw, pitch and roll" ); if( std::abs( q.yaw() ) > kPi + 1e-6 || std::abs( q.roll() ) > kPi + 1e-6 || std::abs( q.pitch() ) > kPi / 2 + 1e-6 ) c.fail( "range of yaw, pitch or roll" );
  auto const v = q.rotationVector(); near( c, v.norm(), 1, t, "norm of the rotation axis" ); near( c, fromAxis( { { (double)v.x(), (double)v.y(), (double)v.z() } }, q.rotationAngle() ), m, 3 * t, "axis and angle" );
  for( std::size_t i = 0; i < 3; ++i ) { rbbl::Position3D<F> e( i == 0 ? 2 : 0, i == 1 ? 2 : 0, i == 2 ? 2 : 0 ); V const w{ { 2 * m[ 0 ][ i ], 2 * m[ 1 ][ i ], 2 * m[ 2 ][ i ] } }; near( c, rbbl::rotate( e, q ), w, 2 * t, "rotated vector" ); e.rotate( q ); near( c, e, w, 2 * t, "rotated vector in place" ); }
  near( c, matrix( rbbl::conjugate( q ) ), transpose( m ), t, "inverse" ); auto k = q; k.conjugate(); near( c, matrix( k ), transpose( m ), t, "inverse in place" );
}
template<typename F> void rotations( Chooser & c, int step )
{
  using Q = rbbl::Quaternion<F>; int const n = 360 / step; double const y = -180 + step * c.choose( n + 1, "yaw" ); double const p = -180 + step * c.choose( n + 1, "pitch" ); double const r = -180 + step * c.choose( n + 1, "roll" ); R const m = fromYpr( rad( y ), rad( p ), rad( r ) ); Q const q = Q::fromYPR( (F)rad( y ), (F)rad( p ), (F)rad( r ) ); c.state( "r" + std::to_string( std::lround( 1e5 * ( m[ 0 ][ 0 ] + 3 * m[ 1 ][ 0 ] + 9 * m[ 2 ][ 2 ] + 27 * m[ 2 ][ 1 ] ) ) ) );
  same( c, q, m, "rotation" ); Q s; s.setYPR( (F)rad( y ), (F)rad( p ), (F)rad( r ) ); near( c, matrix( s ), m, Tol<F>::t, "setYPR" );
  if( std::abs( p ) < 89.5 ) { auto wrap = []( double a ) { return std::remainder( a, 2 * kPi ); }; double const t = 40 * Tol<F>::t; near( c, wrap( q.yaw() - rad( y ) ), 0, t, "yaw" ); near( c, q.pitch(), rad( p ), t, "pitch" ); near( c, wrap( q.roll() - rad( r ) ), 0, t, "roll" ); }
  for( F scale : { (F)1, (F)-1, (F)0.01, (F)70 } ) { Q const u( scale * q.w(), scale * q.x(), scale * q.y(), scale * q.z(), true ); near( c, matrix( u ), m, Tol<F>::t, "normalised at construction" ); Q v( scale * q.w(), scale * q.x(), scale * q.y(), scale * q.z() ); near( c, v.norm(), std::abs( scale ), 100 * Tol<F>::t, "norm" ); auto const w = rbbl::normalise( v ); near( c, matrix( w ), m, Tol<F>::t, "normalised" ); near( c, rbbl::dot( w, q ), scale > 0 ? 1 : -1, Tol<F>::t, "sign" ); v.normalise( true ); if( v.w() < 0 ) c.fail( "sign adjustment" ); near( c, matrix( v ), m, Tol<F>::t, "normalised in place" ); }
}
template<typename F> void axes( Chooser & c, int n, int step )
{
  using Q = rbbl::Quaternion<F>; int const x = c.choose( 2 * n + 1, "x" ) - n, y = c.choose( 2 * n + 1, "y" ) - n, z = c.choose( 2 * n + 1, "z" ) - n; double const a = -360 + step * c.choose( 720 / step + 1, "angle" ); F const scale = c.flag( "long axis" ) ? (F)25 : (F)0.5;
  rbbl::Position3D<F> const v( scale * (F)x, scale * (F)y, scale * (F)z ); if( !x && !y && !z ) { if( !throws( [&] { Q::fromRotationVector( v, (F)rad( a ) ); } ) ) c.fail( "zero axis accepted" ); return; }
  R const m = fromAxis( { { (double)x, (double)y, (double)z } }, rad( a ) ); Q const q = Q::fromRotationVector( v, (F)rad( a ) ); same( c, q, m, "rotation about an axis" ); Q s; s.setRotationVector( v, (F)rad( a ) ); near( c, matrix( s ), m, Tol<F>::t, "setRotationVector" ); c.state( mix( (std::uint64_t)( x + 9 * y + 81 * z + 1000 ), (std::uint64_t)( a + 1000 ) ) );
}
static std::vector<std::array<double, 3>> const & grid( int step ) { static std::map<int, std::vector<std::array<double, 3>>> g; auto & v = g[ step ]; if( v.empty() ) for( int y = -180 + step; y <= 180; y += step ) for( int p = -90; p <= 90; p += step ) for( int r = -180 + step; r <= 180; r += step ) v.push_back( { { (double)y, (double)p, (double)r } } ); return v; }
template<typename F> void composition( Chooser & c, int step )
{
  using Q = rbbl::Quaternion<F>; auto const & g = grid( step ); auto const a = c.pick( g, "first" ), b = c.pick( g, "second" ); R const m = fromYpr( rad( a[ 0 ] ), rad( a[ 1 ] ), rad( a[ 2 ] ) ), n = fromYpr( rad( b[ 0 ] ), rad( b[ 1 ] ), rad( b[ 2 ] ) ); Q const p = Q::fromYPR( (F)rad( a[ 0 ] ), (F)rad( a[ 1 ] ), (F)rad( a[ 2 ] ) ), q = Q::fromYPR( (F)rad( b[ 0 ] ), (F)rad( b[ 1 ] ), (F)rad( b[ 2 ] ) ); double const t = Tol<F>::t;
  R const mn = mul( m, n ); near( c, matrix( p * q ), mn, 2 * t, "product" ); Q r = p; r *= q; near( c, matrix( r ), mn, 2 * t, "product in place" ); r = q; r.rotate( p ); near( c, matrix( r ), mn, 2 * t, "rotate" ); c.state( "c" + std::to_string( std::lround( 1e4 * ( mn[ 0 ][ 0 ] + 3 * mn[ 1 ][ 0 ] + 9 * mn[ 2 ][ 2 ] + 27 * mn[ 2 ][ 1 ] ) ) ) );
  double const want = angleOf( mul( transpose( m ), n ) ), ta = sizeof( F ) == 4 ? 3e-3 : 1e-6; near( c, rbbl::angleNormalised( p, q ), want, ta, "angular distance" ); near( c, rbbl::angle( (F)3 * p, (F)0.25 * q ), want, ta, "angular distance of unnormalised quaternions" ); near( c, rbbl::angle( -p, q ), want, ta, "angular distance of the negated quaternion" );
  Q const s = p + q, d = p - q; Q s2 = p, d2 = p; s2 += q; d2 -= q; Q h = p / (F)4, k = p; k *= (F)0.25; F const pc[] = { p.w(), p.x(), p.y(), p.z() }, qc[] = { q.w(), q.x(), q.y(), q.z() }, sc[] = { s.w(), s.x(), s.y(), s.z() }, dc[] = { d.w(), d.x(), d.y(), d.z() }, s2c[] = { s2.w(), s2.x(), s2.y(), s2.z() }, d2c[] = { d2.w(), d2.x(), d2.y(), d2.z() }, hc[] = { h.w(), h.x(), h.y(), h.z() }, kc[] = { k.w(), k.x(), k.y(), k.z() }; double dp = 0;
  for( int i = 0; i < 4; ++i ) { dp += (double)pc[ i ] * qc[ i ]; if( sc[ i ] != pc[ i ] + qc[ i ] || dc[ i ] != pc[ i ] - qc[ i ] || s2c[ i ] != sc[ i ] || d2c[ i ] != dc[ i ] || hc[ i ] != pc[ i ] / 4 || kc[ i ] != hc[ i ] ) c.fail( "component-wise operator, component ", i ); } near( c, rbbl::dot( p, q ), dp, t, "dot product" );
  if( dp > -0.99 ) for( double x : { 0.0, 0.25, 0.5, 0.8, 1.0 } ) // on the great circle from p to q
  {
    Q const i = rbbl::interpolateSpherical( p, q, (F)x ); double const om = std::acos( std::min( 1.0, dp ) ), so = std::sin( om ); double w[ 4 ]; for( int j = 0; j < 4; ++j ) w[ j ] = om < 1e-3 ? ( 1 - x ) * pc[ j ] + x * qc[ j ] : ( std::sin( ( 1 - x ) * om ) * pc[ j ] + std::sin( x * om ) * qc[ j ] ) / so; double const e = sizeof( F ) == 4 ? 2e-3 : 1e-6;
    near( c, i.w(), w[ 0 ], e, "interpolated w" ); near( c, i.x(), w[ 1 ], e, "interpolated x" ); near( c, i.y(), w[ 2 ], e, "interpolated y" ); near( c, i.z(), w[ 3 ], e, "interpolated z" );
  }
}
template<typename F> void vectors( Chooser & c, int n )
{
  using P = rbbl::Position3D<F>; auto vec = [&]( char const * l ) { V v; for( auto & x : v ) x = 0.5 * ( c.choose( 2 * n + 1, l ) - n ); return v; }; V const a = vec( "a" ), b = vec( "b" ); P const p( (F)a[ 0 ], (F)a[ 1 ], (F)a[ 2 ] ), q( (F)b[ 0 ], (F)b[ 1 ], (F)b[ 2 ] ); double const t = Tol<F>::t; double const la = std::sqrt( dot( a, a ) ), lb = std::sqrt( dot( b, b ) );
  near( c, p + q, add( a, b ), t, "sum" ); V const nb{ { -b[ 0 ], -b[ 1 ], -b[ 2 ] } }; near( c, p - q, add( a, nb ), t, "difference" ); near( c, -q, nb, t, "negation" ); near( c, (F)4 * p, { { 4 * a[ 0 ], 4 * a[ 1 ], 4 * a[ 2 ] } }, t, "scaled" ); near( c, p / (F)4, { { a[ 0 ] / 4, a[ 1 ] / 4, a[ 2 ] / 4 } }, t, "divided" ); P r = p; r += q; near( c, r, add( a, b ), t, "sum in place" ); r -= q; near( c, r, a, t, "difference in place" ); r *= (F)2; near( c, r, add( a, a ), t, "scaled in place" ); r = p; r.translate( q ); near( c, r, add( a, b ), t, "translation" );
  near( c, p.norm(), la, t, "norm" ); near( c, p.normSquare(), la * la, t, "squared norm" ); near( c, rbbl::dot( p, q ), dot( a, b ), t, "dot product" ); c.state( mix( (std::uint64_t)std::lround( 8 * ( la * la + lb * lb ) ), (std::uint64_t)( 1000 + std::lround( 8 * dot( a, b ) ) ) ) );
  if( la < 0.1 ) { if( !throws( [&] { rbbl::normalise( p ); } ) || !throws( [&] { P x = p; x.normalise(); } ) ) c.fail( "zero vector normalised" ); } else { V const u{ { a[ 0 ] / la, a[ 1 ] / la, a[ 2 ] / la } }; near( c, rbbl::normalise( p ), u, t, "normalised" ); P x = p; x.normalise(); near( c, x, u, t, "normalised in place" ); }
  if( la < 0.1 || lb < 0.1 ) { if( !throws( [&] { rbbl::angle( p, q ); } ) ) c.fail( "angle of a zero vector" ); return; }
  double const an = std::acos( std::max( -1.0, std::min( 1.0, dot( a, b ) / la / lb ) ) ), ta = sizeof( F ) == 4 ? 1e-3 : 1e-7; near( c, rbbl::angle( p, q ), an, ta, "angle" ); near( c, rbbl::angleNormalised( rbbl::normalise( p ), rbbl::normalise( q ) ), an, ta, "angle of unit vectors" );
  if( an < 3 ) for( double x : { 0.0, 0.3, 0.5, 1.0 } ) { V w; for( std::size_t i = 0; i < 3; ++i ) { double const u = a[ i ] / la, v = b[ i ] / lb; w[ i ] = ( ( 1 - x ) * la + x * lb ) * ( an < 1e-6 ? u : ( std::sin( ( 1 - x ) * an ) * u + std::sin( x * an ) * v ) / std::sin( an ) ); } near( c, rbbl::interpolateSpherical( p, q, (F)x ), w, ta, "interpolated position" ); }
  F az, el, ra; std::tie( az, el, ra ) = efl::cartesian2spherical( p.x(), p.y(), p.z() ); near( c, ra, la, t, "radius" ); F x, y, z; std::tie( x, y, z ) = efl::spherical2cartesian( az, el, ra ); near( c, P( x, y, z ), a, 5 * t, "spherical coordinates" ); near( c, az, std::atan2( a[ 1 ], a[ 0 ] ), t, "azimuth" ); near( c, el, std::asin( a[ 2 ] / la ), sizeof( F ) == 4 ? 1e-3 : 1e-7, "elevation" ); near( c, efl::radian2degree( efl::degree2radian( (F)( a[ 0 ] * 77 ) ) ), a[ 0 ] * 77, 100 * t, "degrees" ); near( c, efl::degree2radian( (F)( a[ 0 ] * 77 ) ), rad( a[ 0 ] * 77 ), 10 * t, "radians" );
}
// listener pose
using LP = pml::ListenerPosition; using LQ = LP::OrientationQuaternion;
struct Pose { V pos{ { 0, 0, 0 } }; R rot = kId; std::uint64_t time = 0; unsigned face = 0; std::size_t n = 1; };
static void same( Chooser & c, LP const & l, Pose const & p, double tol )
{
  near( c, l.position(), p.pos, tol, "position" ); if( l.x() != l.position().x() || l.y() != l.position().y() || l.z() != l.position().z() ) c.fail( "coordinates" ); near( c, matrix( l.orientationQuaternion() ), p.rot, tol, "orientation" ); near( c, fromYpr( l.yaw(), l.pitch(), l.roll() ), p.rot, 3e-3, "yaw, pitch and roll" ); auto const y = l.orientationYPR(); if( y[ 0 ] != l.yaw() || y[ 1 ] != l.pitch() || y[ 2 ] != l.roll() ) c.fail( "orientationYPR" ); auto const v = l.orientationRotationVector(); near( c, fromAxis( { { v.x(), v.y(), v.z() } }, l.orientationRotationAngle() ), p.rot, tol, "axis and angle" );
  if( l.timeNs() != p.time || l.faceID() != p.face || l.numberOfListeners() != p.n ) c.fail( "time, face or number of listeners" );
}
static void history( Chooser & c, int depth )
{
  LP l( 1.5f, -0.5f, 0.25f, (float)rad( 30 ), (float)rad( -20 ), (float)rad( 100 ) ); Pose p; p.pos = { { 1.5, -0.5, 0.25 } }; p.rot = fromYpr( rad( 30 ), rad( -20 ), rad( 100 ) ); LQ const q1 = LQ::fromYPR( (float)rad( 90 ), 0, 0 ), q2 = LQ::fromYPR( (float)rad( -40 ), (float)rad( 50 ), (float)rad( 160 ) ); R const r1 = fromYpr( rad( 90 ), 0, 0 ), r2 = fromYpr( rad( -40 ), rad( 50 ), rad( 160 ) ); V const t{ { 0.5, 2, -1 } }; LP::PositionType const tv( 0.5f, 2.f, -1.f );
  for( int k = 0; k < depth; ++k )
  {
    double tol = 1e-5;
    switch( c.choose( 26, "operation" ) )
    {
    case 0: l.set( 1, 2 ); p.pos = { { 1, 2, 0 } }; break;
    case 1: l.setPosition( tv ); p.pos = t; break;
    case 2: l.setPosition( -3.f, 0.f, 7.f ); p.pos = { { -3, 0, 7 } }; break;
    case 3: l.setX( 4 ); p.pos[ 0 ] = 4; break;
    case 4: l.setY( -4 ); p.pos[ 1 ] = -4; break;
    case 5: l.setZ( 0.5f ); p.pos[ 2 ] = 0.5; break;
    case 6: l.setOrientationYPR( (float)rad( 10 ), (float)rad( 90 ), (float)rad( 25 ) ); p.rot = fromYpr( rad( 10 ), rad( 90 ), rad( 25 ) ); break;
    case 7: l.setOrientationYPR( LP::OrientationYPR{ { (float)rad( -170 ), (float)rad( -30 ), (float)rad( 5 ) } } ); p.rot = fromYpr( rad( -170 ), rad( -30 ), rad( 5 ) ); break;
    case 8: l.setOrientationQuaternion( q2 ); p.rot = r2; break;
    case 9: l.setOrientationRotationVector( LP::RotationVector( 1.f, 1.f, -2.f ), (float)rad( 200 ) ); p.rot = fromAxis( { { 1, 1, -2 } }, rad( 200 ) ); break;
    case 10: l.translate( tv ); p.pos = add( p.pos, t ); break;
    case 11: l.rotate( q1 ); p.pos = mul( r1, p.pos ); p.rot = mul( r1, p.rot ); break;
    case 12: l.rotate( q2 ); p.pos = mul( r2, p.pos ); p.rot = mul( r2, p.rot ); break;
    case 13: l.rotatePosition( q2 ); p.pos = mul( r2, p.pos ); break;
    case 14: l.rotateOrientation( q2 ); p.rot = mul( r2, p.rot ); break;
    case 15: l.transform( q2, tv ); p.pos = add( mul( r2, p.pos ), t ); p.rot = mul( r2, p.rot ); break;
    case 16: l.setTimeNs( 18446744073709551615ull ); p.time = 18446744073709551615ull; break;
    case 17: l.setFaceID( 7 ); p.face = 7; break;
    case 18: l.setNumberOfListeners( 3 ); p.n = 3; break;
    case 19: { LP m( l ); l = LP(); l = m; break; }
    case 20: { LP m( std::move( l ) ); LP o; o = std::move( m ); l = std::move( o ); break; }
    case 21: l = LP::fromJson( l.writeJson( LP::RotationFormat::Quaternion ) ); break;
    case 22: l = LP::fromJson( l.writeJson( LP::RotationFormat::YPR, true ) ); tol = 5e-3; p.rot = matrix( l.orientationQuaternion() ); break;
    case 23: { std::stringstream s; l.writeJson( s, LP::RotationFormat::RotationVector, true ); R const before = p.rot; LP m( 9, 9, 9, 1, 1, 1 ); m.parseJson( s ); l = m; near( c, matrix( l.orientationQuaternion() ), before, 1e-5, "orientation after a round trip" ); break; }
    case 24: l = LP(); p = Pose(); break;
    case 25: l = LP::fromRotationVector( tv, LP::RotationVector( 0.f, 0.f, -0.1f ), (float)rad( 90 ) ); p = Pose(); p.pos = t; p.rot = fromYpr( rad( -90 ), 0, 0 ); break;
    }
    (void)tol; same( c, l, p, 3e-5 ); c.state( l.writeJson( LP::RotationFormat::Quaternion ) );
  }
}
static void json( Chooser & c ) // YPR round trips keep the rotation
{
  auto const & g = grid( 30 ); auto const a = c.pick( g, "orientation" ); R const m = fromYpr( rad( a[ 0 ] ), rad( a[ 1 ] ), rad( a[ 2 ] ) ); LP l( 1.f / 3.f, -2.f, 1e-6f, (float)rad( a[ 0 ] ), (float)rad( a[ 1 ] ), (float)rad( a[ 2 ] ) ); l.setTimeNs( 9007199254740993ull ); l.setFaceID( 4294967294u ); l.setNumberOfListeners( 2 ); Pose p; p.pos = { { 1.0 / 3, -2, 1e-6 } }; p.rot = m; p.time = 9007199254740993ull; p.face = 4294967294u; p.n = 2;
  auto const f = c.pick( std::vector<LP::RotationFormat>{ LP::RotationFormat::YPR, LP::RotationFormat::RotationVector, LP::RotationFormat::Quaternion }, "format" ); LP const k = LP::fromJson( l.writeJson( f, c.flag( "pretty" ) ) ); same( c, k, p, std::abs( a[ 1 ] ) == 90 && f == LP::RotationFormat::YPR ? 3e-3 : 1e-5 ); if( k.x() != l.x() || k.z() != l.z() ) c.fail( "position lost precision" ); c.state( k.writeJson( f ) );
}
struct Msg { std::string text; bool ok; Pose p; };
static std::vector<Msg> const & messages( bool small )
{
  static std::vector<Msg> m[ 2 ]; auto & v = m[ small ]; if( !v.empty() ) return v; int k = 0;
  auto add = [&]( unsigned face, std::uint64_t time, std::string const & orient, R const & rot, bool ok = true ) { ++k; Msg x; x.ok = ok; x.p.pos = { { 0.5 * k, -0.25 * k, 1.0 / ( k + 1 ) } }; x.p.rot = rot; x.p.time = time; x.p.face = face; std::ostringstream o; o.precision( 9 ); o << "{ \"x\": " << x.p.pos[ 0 ] << ", \"y\": " << x.p.pos[ 1 ] << ", \"z\": " << x.p.pos[ 2 ]; if( face ) o << ", \"faceId\": " << face; if( time ) o << ", \"timeStamp\": " << time; if( !orient.empty() ) o << ", \"orientation\": " << orient; o << " }"; x.text = o.str(); v.push_back( x ); };
  add( 0, 0, "", kId ); add( 0, 5, "{ \"yaw\": 90 }", fromYpr( rad( 90 ), 0, 0 ) ); add( 1, 5, "{ \"quaternion\": { \"w\": 0.5, \"x\": -0.5, \"y\": 0.5, \"z\": 0.5 } }", matrix( rbbl::Quaternion<double>( 0.5, -0.5, 0.5, 0.5 ) ) ); add( 1, 18446744073709551615ull, "{ \"yaw\": -30, \"pitch\": 45, \"roll\": 170 }", fromYpr( rad( -30 ), rad( 45 ), rad( 170 ) ) ); add( 2, 3, "{ \"rotationVector\": { \"x\": 0, \"y\": -3, \"z\": 4, \"angle\": 60 } }", fromAxis( { { 0, -3, 4 } }, rad( 60 ) ) );
  v.push_back( { "{ \"x\": 1, ", false, {} } ); add( 0, 900, "{ \"quaternion\": { \"w\": 1, \"x\": 0, \"y\": 0 } }", kId, false );
  if( small ) return v;
  add( 2, 9, "{}", kId ); add( 0, 4, "", kId ); add( 3000000000u, 18446744073709551615ull, "{ \"pitch\": -90 }", fromYpr( 0, rad( -90 ), 0 ) ); { Msg x; x.ok = true; x.text = "{}"; v.push_back( x ); Msg y; y.ok = true; y.text = "{\"numListeners\":4,\"y\":-2e-1}"; y.p.n = 4; y.p.pos = { { 0, -0.2, 0 } }; v.push_back( y ); }
  v.push_back( { "", false, {} } ); v.push_back( { "position 1 2 3", false, {} } ); add( 0, 901, "{ \"yaw\": 1, \"rotationVector\": { \"x\": 0, \"y\": 1, \"z\": 0, \"angle\": 1 } }", kId, false ); add( 0, 902, "{ \"rotationVector\": { \"x\": 0, \"y\": 0, \"z\": 0, \"angle\": 1 } }", kId, false ); add( 0, 903, "{ \"rotationVector\": { \"x\": 0, \"y\": 1, \"z\": 0 } }", kId, false ); add( 0, 904, "{ \"quaternion\": { \"w\": 1, \"x\": 0, \"y\": 0, \"z\": 0 }, \"roll\": 3 }", kId, false );
  return v;
}
static void decoder( Chooser & c, bool small, int perBatch, int batches )
{
  SignalFlowContext ctx( 16, 48000 ); int const kind = c.choose( 3, "transformation" ); R const rot = kind ? fromYpr( rad( 40 ), rad( -25 ), rad( 130 ) ) : kId; V const off = kind ? V{ { 0.5, 1.5, -2 } } : V{ { 0, 0, 0 } }; LP::PositionType const o( (float)off[ 0 ], (float)off[ 1 ], (float)off[ 2 ] ); float const y = (float)rad( 40 ), p = (float)rad( -25 ), r = (float)rad( 130 );
  std::unique_ptr<Component> d( kind == 0 ? new rcl::PositionDecoder( ctx, "d", nullptr ) : kind == 1 ? new rcl::PositionDecoder( ctx, "d", nullptr, o, LQ::fromYPR( y, p, r ) ) : new rcl::PositionDecoder( ctx, "d", nullptr, o, LP::OrientationYPR{ { y, p, r } } ) ); Runner run( *d, 16, 0, 0 );
  auto in = dynamic_cast<pml::MessageQueueProtocol::OutputBase *>( &run.flow.externalParameterReceivePort( "messageInput" ) ); auto out = dynamic_cast<pml::DoubleBufferingProtocol::InputBase *>( &run.flow.externalParameterSendPort( "positionOutput" ) ); auto const & ms = messages( small ); Pose want; bool any = false;
  for( int b = 0; b < batches; ++b )
  {
    bool got = false; Pose best; for( int k = 0; k < perBatch; ++k ) { int const i = c.choose( (int)ms.size() + 1, "message" ); if( i == (int)ms.size() ) break; Msg const & m = ms[ (std::size_t)i ]; c.note( m.text ); in->enqueue( std::unique_ptr<ParameterBase>( new pml::StringParameter( m.text ) ) ); if( m.ok && ( !got || m.p.face < best.face || ( m.p.face == best.face && m.p.time >= best.time ) ) ) { best = m.p; got = true; } }
    if( !run.step() ) c.fail( "processing was terminated by an exception" ); if( out->changed() != got ) c.fail( got ? "valid messages had no effect" : "change without a valid message" ); out->resetChanged(); if( got ) { any = true; want = best; want.pos = add( mul( rot, best.pos ), off ); want.rot = mul( rot, best.rot ); }
    LP const & l = dynamic_cast<LP const &>( out->data() ); if( any ) same( c, l, want, 1e-5 ); c.state( l.writeJson( LP::RotationFormat::Quaternion ) );
  }
}
static void compensation( Chooser & c, int n )
{
  layout::Desc d; int const L = 1 + c.choose( 3, "loudspeakers" ), S = c.choose( 3, "virtual loudspeakers" ), W = c.choose( 2, "subwoofers" ); V const pos[] = { { { 1, 2, 0.5 } }, { { -2, 0, 0 } }, { { 0.25, -3, 1 } }, { { 0, 9, 0 } }, { { 0, -1, -8 } } };
  for( int i = 0; i < L; ++i ) d.ls.push_back( { "l" + std::to_string( i ), 7 - 2 * i, { false, pos[ i ][ 0 ], pos[ i ][ 1 ], pos[ i ][ 2 ] }, {}, "" } ); for( int i = 0; i < S; ++i ) d.vs.push_back( { "v" + std::to_string( i ), { false, pos[ 3 + i ][ 0 ], pos[ 3 + i ][ 1 ], pos[ 3 + i ][ 2 ] }, {} } ); if( W ) d.subs.push_back( { 20, { "l0" }, { 1 }, {}, "" } ); d.tri.push_back( { { "l0", "l0", "l0" } } );
  LoudspeakerArray a; { Mute m; a.loadXmlString( xml( d ) ); } SignalFlowContext ctx( 16, 48000 ); rcl::ListenerCompensation comp( ctx, "p", nullptr, a ); Runner run( comp, 16, 0, 0 ); pml::DoubleBufferingProtocol::OutputBase * port; auto buf = [&]( char const * q ) -> pml::DoubleBufferingProtocol::InputBase & { return dynamic_cast<pml::DoubleBufferingProtocol::InputBase &>( run.flow.externalParameterSendPort( q ) ); };
  auto & g = buf( "gainOutput" ), & y = buf( "delayOutput" ); V p{ { 0, 0, 0 } }; bool any = false;
  for( int k = 0; k < 2; ++k )
  {
    bool const send = c.flag( "send" ); if( send ) { int const o = c.choose( n * n * n + L, "listener" ); if( o < L ) p = pos[ o ]; else { int const j = o - L; p = { { 0.75 * ( j % n ) - 0.5, 0.75 * ( j / n % n ) - 0.75, 0.5 * ( j / n / n ) - 0.5 } }; } control<LP>( run.flow, "positionInput", port ).set( (float)p[ 0 ], (float)p[ 1 ], (float)p[ 2 ] ); port->swapBuffers(); any = true; }
    if( !run.step() ) c.fail( "processing was terminated by an exception" ); if( g.changed() != send || y.changed() != send ) c.fail( "change notification" ); g.resetChanged(); y.resetChanged(); if( !any ) continue;
    auto const & gv = dynamic_cast<pml::VectorParameter<float> const &>( g.data() ), & yv = dynamic_cast<pml::VectorParameter<float> const &>( y.data() ); if( gv.size() != (std::size_t)L || yv.size() != (std::size_t)L ) c.fail( "number of gains or delays" );
    std::vector<double> r; for( int i = L - 1; i >= 0; --i ) { V const e{ { pos[ i ][ 0 ] - p[ 0 ], pos[ i ][ 1 ] - p[ 1 ], pos[ i ][ 2 ] - p[ 2 ] } }; r.push_back( std::sqrt( dot( e, e ) ) ); } double const mx = *std::max_element( r.begin(), r.end() ); // ascending channel numbers
    for( std::size_t i = 0; i < r.size(); ++i ) { near( c, gv[ i ], mx > 1e-6 ? r[ i ] / mx : 1, 1e-5, "gain" ); near( c, yv[ i ], ( mx - r[ i ] ) / 344, 1e-7, "delay" ); } c.state( std::to_string( r[ 0 ] ) + "," + std::to_string( mx ) );
  }
}
int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary(); Explorer x( argc, argv ); bool const q = x.quick();
  x.add( "rotations-float", [q]( Chooser & c ) { rotations<float>( c, q ? 15 : 5 ); }, 2 ); x.add( "rotations-double", [q]( Chooser & c ) { rotations<double>( c, q ? 15 : 5 ); }, 2 );
  x.add( "axes-float", [q]( Chooser & c ) { axes<float>( c, q ? 2 : 4, 15 ); }, 3 ); x.add( "axes-double", [q]( Chooser & c ) { axes<double>( c, q ? 2 : 4, 15 ); }, 3 );
  x.add( "composition-float", [q]( Chooser & c ) { composition<float>( c, q ? 45 : 30 ); }, 1 ); x.add( "composition-double", [q]( Chooser & c ) { composition<double>( c, q ? 45 : 30 ); }, 1 );
  x.add( "vectors-float", [q]( Chooser & c ) { vectors<float>( c, q ? 2 : 3 ); }, 3 ); x.add( "vectors-double", [q]( Chooser & c ) { vectors<double>( c, q ? 2 : 3 ); }, 3 );
  x.add( "listener-histories", [q]( Chooser & c ) { history( c, q ? 3 : 4 ); }, 2 ); x.add( "listener-json", json, 1 );
  x.add( "decoder-batches", [q]( Chooser & c ) { decoder( c, false, q ? 3 : 4, 1 ); }, 3 ); x.add( "decoder-periods", [q]( Chooser & c ) { decoder( c, true, 2, q ? 2 : 3 ); }, 3 ); x.add( "compensation", [q]( Chooser & c ) { compensation( c, q ? 3 : 5 ); }, 3 );
  return x.run();
}
