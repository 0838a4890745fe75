// Loudspeaker arrays for the renderers and panning gains derived from their description only.
#pragma once
#include "layout.hpp"
using namespace vx; using layout::LoudspeakerArray; using V3 = std::array<double, 3>; using Grid = std::vector<std::vector<double>>;
static double const FS = 48000;
// --- Arrays
static layout::Desc const & desc( int k )
{
  static std::map<int, layout::Desc> made; if( made.count( k ) ) return made[ k ];
  layout::Desc d; bool const threeD = k == 2, eq = k == 1 || k == 3, adj = k > 0; d.twoD = !threeD; double const r[ 4 ] = { 1.5, 1.5, k == 3 ? 2.0 : 1.5, 1.5 };
  auto sp = [&]( char const * id, long ch, double az, double el, double gain, double delay ) { layout::Level l; if( adj ) { l.mode = 1; l.gain = gain; l.hasDelay = true; l.delay = delay; } d.ls.push_back( { id, ch, { true, az, el, r[ d.ls.size() ] }, l, eq ? ( d.ls.size() % 2 ? "f" : "g" ) : "" } ); };
  if( !threeD ) { sp( "A", 3, 40, 0, 0.5, 3 / FS ); sp( "B", 8, -35, 0, 1, 0 ); sp( "C", 1, 130, 0, 2, 11.2 / FS ); sp( "D", 4, -120, 0, -1, 0 ); d.tri = { { { "A", "B", "" } }, { { "A", "C", "" } }, { { "C", "D", "" } }, { { "D", "B", "" } } }; }
  else { sp( "A", 3, 30, 5, 1, 0 ); sp( "B", 8, -30, 0, 0.25, 0.001 ); sp( "C", 1, 160, 10, 1, 0 ); sp( "D", 4, 0, 75, 1, 2 / FS ); d.vs.push_back( { "V", { true, 0, -70, 1.5 }, { { "A", -6 }, { "C", -3 } } } ); d.vs.push_back( { "W", { true, -110, 10, 1.5 }, {} } );
    d.tri = { { { "A", "B", "D" } }, { { "A", "B", "V" } }, { { "A", "C", "D" } }, { { "A", "C", "V" } }, { { "C", "W", "D" } }, { { "C", "W", "V" } }, { { "W", "B", "D" } }, { { "W", "B", "V" } } }; }
  auto sub = [&]( long ch, std::vector<std::string> as, std::vector<double> w, double gain, double delay ) { layout::Level l; l.mode = 1; l.gain = gain; l.hasDelay = true; l.delay = delay; d.subs.push_back( { ch, as, w, l, eq ? "g" : "" } ); };
  if( k == 1 ) sub( 6, { "A", "C" }, { 0.5, 2 }, 0.75, 5 / FS ); if( k == 2 ) { sub( 7, { "D", "B" }, { 1, 0.25 }, 1, 0 ); sub( 2, { "A" }, { 1 }, 0.5, 1 / FS ); }
  if( eq ) { d.eqs = true; d.biquads = 2; d.specs = { { "f", { { { 0.5, 0.25, -0.5, 0.5, 0.25 } }, { { -1, 0, 0.75, -0.25, 0.5 } } } }, { "g", { { { 0.75, -1, 0.25, 0.125, -0.25 } } } } }; }
  return made[ k ] = d;
}
static LoudspeakerArray const & array( int k ) { static std::map<int, std::unique_ptr<LoudspeakerArray>> m; auto & p = m[ k ]; if( !p ) { Mute mu; p.reset( new LoudspeakerArray ); p->loadXmlString( xml( desc( k ) ) ); } return *p; }
// --- Panning, from the description only
struct Ls { V3 pos; long ch; double gain, delay; std::string id, eq; };
static std::vector<Ls> speakers( layout::Desc const & d ) { std::vector<Ls> v; for( auto const & s : d.ls ) v.push_back( { layout::cart( s.pos ), s.channel, layout::level( s.level ), s.level.hasDelay ? s.level.delay : 0, s.id, s.eq } ); std::sort( v.begin(), v.end(), []( Ls const & a, Ls const & b ) { return a.ch < b.ch; } ); return v; }
static V3 cross( V3 const & a, V3 const & b ) { return { { a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 2 ] * b[ 0 ] - a[ 0 ] * b[ 2 ], a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ] } }; }
static double dot( V3 const & a, V3 const & b ) { return a[ 0 ] * b[ 0 ] + a[ 1 ] * b[ 1 ] + a[ 2 ] * b[ 2 ]; }
static std::vector<double> vbap( layout::Desc const & d, std::vector<Ls> const & ls, V3 const & lis, V3 dir )
{
  if( d.twoD ) dir[ 2 ] = 0; std::vector<double> best( ls.size(), 0.0 ); double bestMin = -1e9;
  auto where = [&]( std::string const & id ) { for( auto const & s : ls ) if( s.id == id ) return s.pos; for( auto const & s : d.vs ) if( s.id == id ) return layout::cart( s.pos ); return V3{ { 0, 0, 1 } }; };
  for( auto const & t : d.tri )
  {
    V3 l[ 3 ]; for( std::size_t k = 0; k < 3; ++k ) { if( t[ k ].empty() ) { l[ k ] = { { 0, 0, 1 } }; continue; } l[ k ] = where( t[ k ] ); for( std::size_t i = 0; i < 3; ++i ) l[ k ][ i ] -= lis[ i ]; if( d.twoD ) l[ k ][ 2 ] = 0; double const n = std::sqrt( dot( l[ k ], l[ k ] ) ); for( auto & x : l[ k ] ) x /= n; }
    double const det = dot( l[ 0 ], cross( l[ 1 ], l[ 2 ] ) ); double const g[ 3 ] = { dot( dir, cross( l[ 1 ], l[ 2 ] ) ) / det, dot( dir, cross( l[ 2 ], l[ 0 ] ) ) / det, dot( dir, cross( l[ 0 ], l[ 1 ] ) ) / det };
    double const low = std::min( { g[ 0 ], g[ 1 ], d.twoD ? 1e9 : g[ 2 ] } ); if( low <= bestMin ) continue; bestMin = low; std::fill( best.begin(), best.end(), 0.0 );
    for( std::size_t k = 0; k < ( d.twoD ? 2u : 3u ); ++k ) { for( std::size_t i = 0; i < ls.size(); ++i ) if( ls[ i ].id == t[ k ] ) best[ i ] += g[ k ]; for( auto const & v : d.vs ) if( v.id == t[ k ] ) for( auto const & r : v.routes ) for( std::size_t i = 0; i < ls.size(); ++i ) if( ls[ i ].id == r.first ) best[ i ] += g[ k ] * std::pow( 10.0, r.second / 20 ); }
  }
  return best;
}
