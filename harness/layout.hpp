// Description of a loudspeaker array, its XML form and the comparison of a loaded array with it.
#pragma once
#include "explore.hpp"
#include <libpanning/LoudspeakerArray.h>
#include <librbbl/biquad_coefficient.hpp>
#include <cmath>
#include <limits>
#include <map>
#include <numeric>
#include <sstream>
namespace layout
{
using visr::panning::LoudspeakerArray;
struct Pos { bool polar; double a, b, c; };                                  // x,y,z or az,el,r
struct Level { int mode = 0; double gain = 0; bool hasDelay = false; double delay = 0; }; // mode: 0 none, 1 gain, 2 gainDB
struct Speaker { std::string id; long channel; Pos pos; Level level; std::string eq; };
struct Virtual { std::string id; Pos pos; std::vector<std::pair<std::string, double>> routes; };
struct Sub { long channel; std::vector<std::string> assigned; std::vector<double> weights; Level level; std::string eq; };
struct Spec { std::string name; std::vector<std::array<double, 5>> biquads; }; // b0 b1 b2 a1 a2
struct Desc
{
  bool twoD = false, dimGiven = true; int infinite = -1;                     // -1: attribute absent
  std::vector<Speaker> ls; std::vector<Virtual> vs; std::vector<Sub> subs; std::vector<std::array<std::string, 3>> tri;
  bool eqs = false; int biquads = 0; std::vector<Spec> specs;
};
inline std::string num( double v ) { std::ostringstream s; s.precision( 9 ); s << v; return s.str(); }
inline std::string esc( std::string const & s ) { std::string r; for( char ch : s ) switch( ch ) { case '&': r += "&amp;"; break; case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '"': r += "&quot;"; break; default: r += ch; } return r; }
inline std::string attr( char const * n, std::string const & v ) { return std::string( " " ) + n + "=\"" + esc( v ) + "\""; }
inline std::string xmlPos( Pos const & p, bool twoD ) { return p.polar ? "<polar" + attr( "az", num( p.a ) ) + ( twoD && p.b == 0 ? "" : attr( "el", num( p.b ) ) ) + attr( "r", num( p.c ) ) + "/>" : "<cart" + attr( "x", num( p.a ) ) + attr( "y", num( p.b ) ) + ( twoD && p.c == 0 ? "" : attr( "z", num( p.c ) ) ) + "/>"; }
inline std::string xmlLevel( Level const & l ) { return ( l.mode == 1 ? attr( "gain", num( l.gain ) ) : l.mode == 2 ? attr( "gainDB", num( l.gain ) ) : "" ) + ( l.hasDelay ? attr( "delay", num( l.delay ) ) : "" ); }
// The elements below the root, in the order: loudspeakers, virtual speakers, triplets, subwoofers, equalisers.
inline std::vector<std::string> elements( Desc const & d )
{
  std::vector<std::string> e;
  for( auto const & s : d.ls ) e.push_back( "<loudspeaker" + attr( "id", s.id ) + attr( "channel", std::to_string( s.channel ) ) + xmlLevel( s.level ) + ( s.eq.empty() ? "" : attr( "eq", s.eq ) ) + ">" + xmlPos( s.pos, d.twoD ) + "</loudspeaker>" );
  for( auto const & s : d.vs ) { std::string r; for( auto const & x : s.routes ) r += "<route" + attr( "lspId", x.first ) + attr( "gainDB", num( x.second ) ) + "/>"; e.push_back( "<virtualspeaker" + attr( "id", s.id ) + ">" + xmlPos( s.pos, d.twoD ) + r + "</virtualspeaker>" ); }
  for( auto const & t : d.tri ) e.push_back( "<triplet" + attr( "l1", t[ 0 ] ) + attr( "l2", t[ 1 ] ) + ( t[ 2 ].empty() ? "" : attr( "l3", t[ 2 ] ) ) + "/>" );
  for( auto const & s : d.subs ) { std::string a, w; for( auto const & x : s.assigned ) a += ( a.empty() ? "" : ", " ) + x; for( double x : s.weights ) w += ( w.empty() ? "" : ", " ) + num( x ); e.push_back( "<subwoofer" + attr( "channel", std::to_string( s.channel ) ) + attr( "assignedLoudspeakers", a ) + ( w.empty() ? "" : attr( "weights", w ) ) + xmlLevel( s.level ) + ( s.eq.empty() ? "" : attr( "eq", s.eq ) ) + "/>" ); }
  if( d.eqs ) { std::string s; for( auto const & f : d.specs ) { s += "<filterSpec" + attr( "name", f.name ) + ">"; for( auto const & b : f.biquads ) s += "<biquad" + attr( "b0", num( b[ 0 ] ) ) + attr( "b1", num( b[ 1 ] ) ) + attr( "b2", num( b[ 2 ] ) ) + attr( "a1", num( b[ 3 ] ) ) + attr( "a2", num( b[ 4 ] ) ) + "/>"; s += "</filterSpec>"; } e.push_back( "<outputEqConfiguration type=\"iir\"" + attr( "numberOfBiquads", std::to_string( d.biquads ) ) + ">" + s + "</outputEqConfiguration>" ); }
  return e;
}
inline std::string wrap( Desc const & d, std::vector<std::string> const & e ) { std::string r = "<?xml version=\"1.0\" encoding=\"utf-8\"?><panningConfiguration" + ( d.dimGiven || d.twoD ? attr( "dimension", d.twoD ? "2" : "3" ) : "" ) + ( d.infinite >= 0 ? attr( "infinite", d.infinite ? "true" : "false" ) : "" ) + ">"; for( auto const & x : e ) r += x; return r + "</panningConfiguration>"; }
inline std::string xml( Desc const & d ) { return wrap( d, elements( d ) ); }
inline std::array<double, 3> cart( Pos const & p ) { if( !p.polar ) return { { p.a, p.b, p.c } }; double const q = std::acos( -1.0 ) / 180.0; return { { p.c * std::cos( p.a * q ) * std::cos( p.b * q ), p.c * std::sin( p.a * q ) * std::cos( p.b * q ), p.c * std::sin( p.b * q ) } }; }
inline double level( Level const & l ) { return l.mode == 0 ? 1.0 : l.mode == 1 ? l.gain : std::pow( 10.0, l.gain / 20.0 ); }
inline bool near( double a, double b ) { return std::abs( a - b ) <= 2e-6 * ( 1.0 + std::abs( b ) ); }
// Compare a loaded array with the description it was loaded from.
inline void verify( vx::Chooser & c, LoudspeakerArray const & a, Desc const & d )
{
  auto eq = [&]( double got, double want, std::string const & what ) { c.compared(); if( !near( got, want ) ) c.fail( what, ": ", got, " instead of ", want ); };
  auto eqn = [&]( std::size_t got, std::size_t want, std::string const & what ) { c.compared(); if( got != want ) c.fail( what, ": ", got, " instead of ", want ); };
  std::size_t const L = d.ls.size(), V = d.vs.size(), S = d.subs.size();
  eqn( a.getNumRegularSpeakers(), L, "number of regular loudspeakers" ); eqn( a.getNumSpeakers(), L + V, "number of loudspeakers" ); eqn( a.getNumSubwoofers(), S, "number of subwoofers" ); eqn( a.getNumTriplets(), d.tri.size(), "number of triplets" );
  eqn( a.is2D(), d.twoD, "two-dimensional" ); eqn( a.isInfinite(), d.infinite == 1, "infinite" );
  std::map<std::string, std::size_t> index; std::vector<long> ch; for( auto const & s : d.ls ) ch.push_back( s.channel ); std::sort( ch.begin(), ch.end() );
  for( auto const & s : d.ls ) index[ s.id ] = std::size_t( std::find( ch.begin(), ch.end(), s.channel ) - ch.begin() ); // regular loudspeakers are sorted by channel
  std::vector<bool> used( V, false );
  for( auto const & s : d.vs ) { std::size_t const i = a.getSpeakerIndexFromId( s.id ); if( i < L || i >= L + V || used[ i - L ] ) c.fail( "virtual loudspeaker ", s.id, " has index ", i ); used[ i - L ] = true; index[ s.id ] = i; }
  auto pos = [&]( std::string const & id, Pos const & p ) { auto const w = cart( p ); std::size_t const i = index[ id ]; auto const & g = a.getPosition( i ); auto const & h = a.getPosition( id ); eq( g.x, w[ 0 ], "x of " + id ); eq( g.y, w[ 1 ], "y of " + id ); eq( g.z, w[ 2 ], "z of " + id ); if( &g != &h ) c.fail( "position of ", id, " by name differs from that by index" ); eqn( g.isInfinite, d.infinite == 1, "infinite flag of " + id ); eqn( a.getSpeakerIndexFromId( id ), i, "index of " + id ); if( a.loudspeakerId( i ) != id ) c.fail( "index ", i, " is named ", a.loudspeakerId( i ), " instead of ", id ); };
  if( L ) eqn( a.getGainAdjustment().size(), L + S, "gain adjustments" );
  for( auto const & s : d.ls )
  {
    std::size_t const i = index[ s.id ]; pos( s.id, s.pos ); eqn( a.channelIndex( i ), (std::size_t)s.channel, "channel of " + s.id ); eqn( a.getSpeakerChannel( i ), (std::size_t)s.channel, "channel of " + s.id ); eqn( a.getSpeakerChannelFromId( s.id ), (std::size_t)s.channel, "channel by id of " + s.id ); eqn( a.getLoudspeakerChannels()[ i ], (std::size_t)s.channel, "channel list" );
    eq( a.getLoudspeakerGainAdjustment( i ), level( s.level ), "gain of " + s.id ); eq( a.getLoudspeakerDelayAdjustment( i ), s.level.hasDelay ? s.level.delay : 0, "delay of " + s.id ); eq( a.getGainAdjustment()[ i ], level( s.level ), "gain vector of " + s.id ); eq( a.getDelayAdjustment()[ i ], s.level.hasDelay ? s.level.delay : 0, "delay vector of " + s.id );
  }
  eqn( a.getReroutingCoefficients().numberOfRows(), V, "rows of the re-routing matrix" );
  for( auto const & s : d.vs ) { pos( s.id, s.pos ); std::vector<double> w( L, 0.0 ); for( auto const & r : s.routes ) w[ index[ r.first ] ] = std::pow( 10.0, r.second / 20.0 ); for( std::size_t i = 0; i < L; ++i ) eq( a.getReroutingCoefficient( index[ s.id ] - L, i ), w[ i ], "re-routing of " + s.id + " to " + std::to_string( i ) ); }
  for( std::size_t t = 0; t < d.tri.size(); ++t ) for( int k = 0; k < ( d.twoD ? 2 : 3 ); ++k ) eqn( a.getTriplet( t )[ (std::size_t)k ], index.at( d.tri[ t ][ (std::size_t)k ] ), "triplet " + std::to_string( t ) );
  for( std::size_t s = 0; s < S; ++s )
  {
    Sub const & u = d.subs[ s ]; std::string const n = "subwoofer " + std::to_string( s ); eqn( a.getSubwooferChannel( s ), (std::size_t)u.channel, "channel of " + n ); eqn( a.getSubwooferChannels()[ s ], (std::size_t)u.channel, "channel of " + n );
    std::vector<double> w( L, 0.0 ); for( std::size_t k = 0; k < u.assigned.size(); ++k ) w[ index.at( u.assigned[ k ] ) ] = u.weights.empty() ? 1.0 : u.weights[ k ];
    for( std::size_t i = 0; i < L; ++i ) { eq( a.getSubwooferGain( s, i ), w[ i ], n + " weight" ); eq( a.getSubwooferGains()( s, i ), w[ i ], n + " weight" ); }
    eq( a.getSubwooferGainAdjustment( s ), level( u.level ), "gain of " + n ); eq( a.getSubwooferDelayAdjustment( s ), u.level.hasDelay ? u.level.delay : 0, "delay of " + n );
  }
  eqn( a.outputEqualisationPresent(), d.eqs, "equalisers present" ); eqn( a.outputEqualisationNumberOfBiquads(), d.eqs ? (std::size_t)d.biquads : 0, "number of biquads" );
  if( d.eqs )
  {
    auto const & m = a.outputEqualisationBiquads(); eqn( m.numberOfFilters(), L + S, "number of equalisers" );
    auto one = [&]( std::size_t ch, std::string const & name ) { Spec const * sp = nullptr; for( auto const & x : d.specs ) if( x.name == name ) sp = &x; for( std::size_t k = 0; k < (std::size_t)d.biquads; ++k ) { std::array<double, 5> w{ { 1, 0, 0, 0, 0 } }; if( sp && k < sp->biquads.size() ) w = sp->biquads[ k ]; for( std::size_t q = 0; q < 5; ++q ) eq( m( ch, k )[ q ], w[ q ], "equaliser of output " + std::to_string( ch ) ); } };
    for( auto const & s : d.ls ) one( index[ s.id ], s.eq ); for( std::size_t s = 0; s < S; ++s ) one( L + s, d.subs[ s ].eq );
  }
  else if( !vx::throws( [&] { a.outputEqualisationBiquads(); } ) ) c.fail( "equalisers accessible although absent" );
  if( !vx::throws( [&] { a.loudspeakerId( L + V ); } ) ) c.fail( "a loudspeaker beyond the last index has a name" );
  if( !vx::throws( [&] { a.getSpeakerIndexFromId( "no such id" ); } ) ) c.fail( "an unknown id has an index" );
}
} // namespace layout
