//! LIBS: reverbobject panningdsp visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile -lboost_thread -lpthread
// Reverberant objects: all bounded histories of scenes through the parameter calculator, the late filter calculator and the complete reverberation renderer. The noise sequences of the late
// reverberation are not prescribed; they are observed once per instance, and everything else follows from the object parameters.
#include "panref.hpp"
#include "objects.hpp"
#include "runner.hpp"
#include <libpml/biquad_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <libreverbobject/late_reverb_filter_calculator.hpp>
#include <libreverbobject/late_reverb_parameter.hpp>
#include <libreverbobject/reverb_object_renderer.hpp>
#include <libreverbobject/reverb_parameter_calculator.hpp>
#include <sndfile.h>
#include <unistd.h>
using DB = pml::DoubleBufferingProtocol; using MQ = pml::MessageQueueProtocol; using SD = pml::SharedDataProtocol; using Biquad = std::array<double, 5>;
static std::size_t const B = Reverb::cNumberOfSubBands, Q = Reverb::cNumDiscreteReflectionBiquads; static float const fs = 48000.f;
struct Refl { V3 pos; int delay; float level; std::vector<Biquad> eq; };
struct Late { int onset = 0; std::vector<float> level, decay; std::vector<int> attack; };
struct Rev { bool reverb; unsigned ch; std::vector<Refl> r; Late late; };
using Scene = std::map<unsigned, Rev>;
static Reverb::LateReverb lateOf( Late const & l )
{
  Reverb::LateReverbCoeffs a{}, d{}, t{}; for( std::size_t b = 0; b < B; ++b ) { a[ b ] = b < l.level.size() ? l.level[ b ] : 0; d[ b ] = b < l.decay.size() ? l.decay[ b ] : 0; t[ b ] = b < l.attack.size() ? (float)l.attack[ b ] / fs : 0; }
  Reverb::LateReverb r; r.setOnsetDelay( (float)l.onset / fs ); r.setLevels( a ); r.setDecayCoeffs( d ); r.setAttackTimes( t ); return r;
}
static void fill( om::ObjectVector & v, Scene const & s )
{
  v.clear();
  for( auto const & e : s )
  {
    Rev const & p = e.second; if( !p.reverb ) { om::PointSource o( e.first ); o.resetNumberOfChannels( 1 ); o.setChannelIndex( 0, p.ch ); v.insert( o ); continue; }
    Reverb o( e.first ); o.resetNumberOfChannels( 1 ); o.setChannelIndex( 0, p.ch ); o.setX( -1 ); o.setNumberOfDiscreteReflections( p.r.size() );
    for( std::size_t k = 0; k < p.r.size(); ++k ) { auto & r = o.discreteReflection( k ); r.setPosition( (float)p.r[ k ].pos[ 0 ], (float)p.r[ k ].pos[ 1 ], (float)p.r[ k ].pos[ 2 ] ); r.setDelay( (float)p.r[ k ].delay / fs ); r.setLevel( p.r[ k ].level );
      rbbl::BiquadCoefficientList<float> l( p.r[ k ].eq.size() ); for( std::size_t b = 0; b < l.size(); ++b ) { auto const & q = p.r[ k ].eq[ b ]; l[ b ] = rbbl::BiquadCoefficient<float>( (float)q[ 0 ], (float)q[ 1 ], (float)q[ 2 ], (float)q[ 3 ], (float)q[ 4 ] ); } r.setReflectionFilters( l ); }
    auto const l = lateOf( p.late ); o.setLateReverbOnset( l.onsetDelay() ); o.setLateReverbLevels( l.levels() ); o.setLateReverbDecayCoeffs( l.decayCoeffs() ); o.setLateReverbAttackTimes( l.attackTimes() ); v.insert( o );
  }
}
static bool same( Reverb::LateReverb const & a, Reverb::LateReverb const & b ) { return a.onsetDelay() == b.onsetDelay() && a.levels() == b.levels() && a.decayCoeffs() == b.decayCoeffs() && a.attackTimes() == b.attackTimes(); }
static bool silent( Reverb::LateReverb const & a ) { for( float l : a.levels() ) if( l != 0 ) return false; return true; }
static std::vector<Rev> const & universe( unsigned id )
{
  static std::map<unsigned, std::vector<Rev>> m; auto & v = m[ id ]; if( !v.empty() ) return v; float const g = 1.f / (float)( id + 1 ); unsigned const c = id;
  Late const l0{ 0, { 1, 0.5f, 0, 0.25f, 1, -1, 0.5f, 2, 1 }, { -100, 0, -2000, -50, -1, -900, -4000, -30, -10 }, { 0, 1, 2, 0, 0, 3, 1, 0, 2 } }, l1{ 2, { 0, 0, 0, 0, 2, 0, 0, 0, g }, { 0, 0, 0, 0, -3000, 0, 0, 0, -500 }, { 0, 0, 0, 0, 1, 0, 0, 0, 3 } }, none;
  Late l2 = l0; l2.level[ 8 ] = 0.75f; Late l3 = l0; l3.decay[ 4 ] = -2; Late l4 = l0; l4.attack[ 6 ] = 0; Late l5 = l0; l5.onset = 1;
  Refl const r0{ { { 1, 0.4, 0.2 } }, 0, g, {} }, r1{ { { -0.5, -1, 0.1 } }, 5, -0.5f, { { { 0.5, 0.25, -0.5, 0.25, 0.125 } }, { { 1, -0.5, 0, -0.25, 0 } } } }, r2{ { { -1, 0.7, -0.3 } }, 12, 2.f, { { { 0.25, 0, 0.5, 0, -0.25 } } } };
  v = { { true, c, { r0, r1 }, l0 }, { true, c, { r2 }, l0 }, { true, c, {}, l1 }, { true, c + 3, { r1, r2 }, none }, { false, c, {}, none }, { true, c, { r0, r1 }, l2 }, { true, c, { r1 }, l3 }, { true, c, { r0 }, l4 }, { true, c, { r2, r0 }, l5 } };
  return v;
}
static std::vector<double> energy( std::vector<double> v ) { double s = 0; for( double x : v ) s += x * x; for( double & x : v ) x /= std::sqrt( s ); return v; }
// Each object is kept, absent, or one of the variants.
static Scene next( Chooser & c, Scene const & before, unsigned ids, int variants )
{
  Scene s; for( unsigned id = 1; id <= ids; ++id ) { int const k = c.choose( variants + 2, "object" ); if( k == 0 ) { auto const it = before.find( id ); if( it != before.end() ) s[ id ] = it->second; } else if( k > 1 ) s[ id ] = universe( id )[ (std::size_t)k - 2 ]; }
  return s;
}
static std::string shown( Scene const & s ) { std::string r; for( auto const & e : s ) { std::size_t k = 0; for( auto const & u : universe( e.first ) ) { if( u.ch == e.second.ch && u.r.size() == e.second.r.size() && u.reverb == e.second.reverb && same( lateOf( u.late ), lateOf( e.second.late ) ) ) break; ++k; } r += " " + std::to_string( e.first ) + "=" + std::to_string( k ); } return r; }
static std::size_t reverbs( Scene const & s ) { std::size_t n = 0; for( auto const & e : s ) n += e.second.reverb; return n; }
// --- Parameter calculation
static void parameters( Chooser & c, int periods, unsigned ids, int variants )
{
  int const arr = ids > 2 ? 2 : c.choose( 2, "array" ) * 2; std::size_t const maxObj = (std::size_t)c.choose( (int)ids, "objects" ) + 1, maxRefl = (std::size_t)c.choose( 3, "reflections" ) + ( ids > 2 ? 0u : 1u ); auto const & d = desc( arr ); auto const ls = speakers( d ); std::size_t const R = ls.size();
  SignalFlowContext ctx( 8, 48000 ); reverbobject::ReverbParameterCalculator calc( ctx, "c" ); { Mute m; calc.setup( array( arr ), maxObj, maxRefl, Q, 0.01f, B ); } rrl::AudioSignalFlow flow( calc );
  DB::OutputBase * port = nullptr; control<pml::ObjectVector>( flow, "objectInput", port );
  auto db = [&]( char const * n ) { return dynamic_cast<DB::InputBase *>( &flow.externalParameterSendPort( n ) ); }; auto * routing = db( "signalRoutingOut" ), * gain = db( "discreteGainOut" ), * delay = db( "discreteDelayOut" ), * eq = db( "discreteEqOut" ), * lateGain = db( "lateGainOut" ), * lateDelay = db( "lateDelayOut" );
  auto * pan = dynamic_cast<SD::InputBase *>( &flow.externalParameterSendPort( "discretePanningGainOut" ) ); auto * late = dynamic_cast<MQ::InputBase *>( &flow.externalParameterSendPort( "lateSubbandOut" ) );
  Scene s; std::map<unsigned, std::size_t> where; std::map<std::size_t, Reverb::LateReverb> current; std::vector<std::size_t> lateCount( maxObj );
  for( int p = 0; p < periods; ++p )
  {
    s = next( c, s, ids, variants ); c.note( "scene", shown( s ) ); fill( dynamic_cast<pml::ObjectVector &>( port->data() ), s ); port->swapBuffers();
    bool expectFail = reverbs( s ) > maxObj; for( auto const & e : s ) if( e.second.reverb && e.second.r.size() > maxRefl ) expectFail = true; bool ok = true;
    { Mute m; try { flow.process( nullptr, 8, 1, nullptr, 8, 1 ); } catch( std::exception const & ) { ok = false; } } c.compared(); if( ok == expectFail ) c.fail( expectFail ? "a scene that exceeds the limits was accepted" : "a scene within the limits was rejected" );
    for( ; !late->empty(); late->pop() )
    {
      auto const & m = dynamic_cast<reverbobject::LateReverbParameter const &>( late->front() ); if( m.index() >= maxObj ) c.fail( "late reverberation message for nonexistent channel ", m.index() );
      auto const it = current.find( m.index() ); if( it != current.end() && same( it->second, m.getReverbParameters() ) ) c.fail( "late reverberation parameters of channel ", m.index(), " sent again without a change" ); current[ m.index() ] = m.getReverbParameters(); c.compared();
    }
    if( !ok ) { if( reverbs( s ) <= maxObj ) where.clear(); continue; }
    auto const & rt = dynamic_cast<pml::SignalRoutingParameter const &>( routing->data() ); std::map<std::size_t, unsigned> owner; std::size_t entries = 0; std::map<unsigned, std::size_t> now;
    for( auto const & r : rt ) { ++entries; bool found = false; for( auto const & e : s ) if( e.second.reverb && e.second.ch == r.input ) { found = true; if( now.count( e.first ) ) c.fail( "object ", e.first, " has two reverberation channels" ); now[ e.first ] = r.output; owner[ r.output ] = e.first; } if( !found ) c.fail( "input ", r.input, " of no reverberant object is routed to reverberation channel ", r.output ); if( r.output >= maxObj ) c.fail( "routing to nonexistent reverberation channel ", r.output ); }
    for( auto const & e : s ) if( e.second.reverb ) { c.compared(); if( !now.count( e.first ) ) c.fail( "object ", e.first, " has no reverberation channel" ); auto const it = where.find( e.first ); if( it != where.end() && it->second != now[ e.first ] ) c.fail( "object ", e.first, " moved from reverberation channel ", it->second, " to ", now[ e.first ] ); }
    where = now;
    auto const & gv = dynamic_cast<pml::VectorParameter<float> const &>( gain->data() ), & dv = dynamic_cast<pml::VectorParameter<float> const &>( delay->data() ), & lg = dynamic_cast<pml::VectorParameter<float> const &>( lateGain->data() ), & ld = dynamic_cast<pml::VectorParameter<float> const &>( lateDelay->data() ); auto const & pm = dynamic_cast<pml::MatrixParameter<float> const &>( pan->data() ); auto const & em = dynamic_cast<pml::BiquadParameterMatrix<float> const &>( eq->data() );
    if( gv.size() != maxObj * maxRefl || dv.size() != maxObj * maxRefl || lg.size() != maxObj || ld.size() != maxObj || pm.numberOfRows() != R || pm.numberOfColumns() != maxObj * maxRefl ) c.fail( "wrong parameter dimensions" );
    for( std::size_t ch = 0; ch < maxObj; ++ch )
    {
      Rev const * o = owner.count( ch ) ? &s[ owner[ ch ] ] : nullptr;
      for( std::size_t k = 0; k < maxRefl; ++k )
      {
        std::size_t const i = ch * maxRefl + k; Refl const * r = o && k < o->r.size() ? &o->r[ k ] : nullptr; c.compared( R + Q + 2 ); float const g = r ? r->level : 0, t = r ? (float)r->delay / fs : 0; std::vector<double> const v = r ? energy( vbap( d, ls, { { 0, 0, 0 } }, r->pos ) ) : std::vector<double>( R, 0.0 );
        if( !r ) { bool zero = true; for( std::size_t n = 0; n < R; ++n ) zero = zero && pm( n, i ) == 0; if( gv[ i ] != 0 && !zero ) c.fail( "channel ", ch, ": unused reflection ", k, " has gain ", gv[ i ], " and a panning gain" ); continue; }
        if( gv[ i ] != g || dv[ i ] != t ) c.fail( "channel ", ch, " reflection ", k, ": gain ", gv[ i ], " delay ", dv[ i ], " instead of ", g, " and ", t );
        for( std::size_t n = 0; n < R; ++n ) if( !( std::abs( pm( n, i ) - v[ n ] ) < 1e-4 ) ) c.fail( "channel ", ch, " reflection ", k, ": panning gain ", pm( n, i ), " for loudspeaker ", n, " instead of ", v[ n ] );
        for( std::size_t b = 0; b < Q; ++b ) { Biquad const q = r && b < r->eq.size() ? r->eq[ b ] : Biquad{ { 1, 0, 0, 0, 0 } }; auto const & a = em( i, b ); if( a.b0() != (float)q[ 0 ] || a.b1() != (float)q[ 1 ] || a.b2() != (float)q[ 2 ] || a.a1() != (float)q[ 3 ] || a.a2() != (float)q[ 4 ] ) c.fail( "channel ", ch, " reflection ", k, ": wrong filter section ", b ); }
      }
      c.compared( 3 ); if( o && ( lg[ ch ] != 1.f || ld[ ch ] != 0 ) ) c.fail( "channel ", ch, ": late gain ", lg[ ch ], " delay ", ld[ ch ] ); auto const it = current.find( ch );
      if( o ? it == current.end() || !same( it->second, lateOf( o->late ) ) : lg[ ch ] != 0 && ( it == current.end() || !silent( it->second ) ) ) c.fail( "channel ", ch, ": the late reverberation does not have the parameters of its object" );
    }
    std::string st = std::to_string( arr ) + "," + std::to_string( maxObj ) + "," + std::to_string( maxRefl ); for( auto const & e : now ) st += " " + std::to_string( e.first ) + ">" + std::to_string( e.second ); c.state( st + shown( s ) );
  }
}
// --- Late reverberation filters
using IF = pml::IndexedValueParameter<std::size_t, std::vector<float>>;
static double envelope( Late const & l, std::size_t b, std::size_t n )
{
  double const g = b < l.level.size() ? l.level[ b ] : 0, d = b < l.decay.size() ? l.decay[ b ] : 0; long const on = l.onset, at = b < l.attack.size() ? l.attack[ b ] : 0, t = (long)n - on;
  return t < 0 ? 0 : t < at ? g * (double)t / (double)at : g * std::exp( d / fs * (double)( t - at ) );
}
static std::vector<double> lateResponse( Late const & l, Grid const & noise, std::size_t F ) { std::vector<double> h( F, 0.0 ); for( std::size_t b = 0; b < B; ++b ) for( std::size_t n = 0; n < F; ++n ) h[ n ] += noise[ b ][ n ] * envelope( l, b, n ); return h; }
static Late basis( std::size_t b ) { Late l; l.level.assign( B, 0.f ); l.level[ b ] = 1; return l; }
struct Calc
{
  SignalFlowContext ctx{ 8, 48000 }; std::size_t nObj, F; reverbobject::LateReverbFilterCalculator calc; rrl::AudioSignalFlow flow; MQ::OutputBase * in; MQ::InputBase * out;
  Calc( std::size_t n, std::size_t f, std::size_t updates ) : nObj( n ), F( f ), calc( ctx, "l", nullptr, n, ( (float)f - 0.5f ) / fs, B, updates ), flow( calc ) { in = dynamic_cast<MQ::OutputBase *>( &flow.externalParameterReceivePort( "subbandInput" ) ); out = dynamic_cast<MQ::InputBase *>( &flow.externalParameterSendPort( "lateFilterOutput" ) ); }
  void send( std::size_t ch, Late const & l ) { in->enqueue( std::unique_ptr<ParameterBase>( new reverbobject::LateReverbParameter( ch, lateOf( l ) ) ) ); }
  bool process() { Mute m; try { flow.process( nullptr, 8, 1, nullptr, 8, 1 ); return true; } catch( std::exception const & ) { return false; } }
  std::vector<std::pair<std::size_t, std::vector<float>>> take() { std::vector<std::pair<std::size_t, std::vector<float>>> v; for( ; !out->empty(); out->pop() ) { auto const & f = dynamic_cast<IF const &>( out->front() ); v.push_back( { f.index(), f.value() } ); } return v; }
  std::vector<Grid> learn( Chooser & c )
  {
    std::vector<Grid> r( nObj, Grid( B ) );
    for( std::size_t o = 0; o < nObj; ++o ) for( std::size_t b = 0; b < B; ++b ) { send( o, basis( b ) ); if( !process() ) c.fail( "the calculation of a filter failed" ); auto const v = take(); if( v.size() != 1 || v[ 0 ].first != o || v[ 0 ].second.size() != F ) c.fail( "no filter of length ", F, " for channel ", o ); r[ o ][ b ].assign( v[ 0 ].second.begin(), v[ 0 ].second.end() ); }
    return r;
  }
};
static void lateFilters( Chooser & c, bool more )
{
  std::size_t const nObj = (std::size_t)c.choose( 3, "objects" ) + 1, F = std::vector<std::size_t>{ 1, 7, 16, 33 }[ (std::size_t)c.choose( 4, "length" ) ], updates = (std::size_t)c.choose( 4, "updates per period" ); Calc k( nObj, F, updates ); auto const noise = k.learn( c ); std::vector<std::pair<std::size_t, Late>> queue; std::size_t const limit = updates ? updates : nObj;
  std::vector<Late> kinds; for( unsigned id = 1; id < 3; ++id ) for( auto const & u : universe( id ) ) kinds.push_back( u.late ); Late tight; tight.onset = (int)F - 1; tight.level.assign( B, 1.f ); kinds.push_back( tight ); if( F > 3 ) { tight.onset = 1; tight.attack.assign( B, (int)F - 2 ); kinds.push_back( tight ); } else kinds = { tight, basis( 3 ), Late() };
  std::size_t next = (std::size_t)c.choose( more ? (int)kinds.size() : 4, "first kind" );
  for( int p = 0; p < 6; ++p )
  {
    int const n = p < 3 ? c.choose( 4, "messages" ) : 0; for( int m = 0; m < n; ++m ) { std::size_t const o = ( next + (std::size_t)m ) % nObj; auto const & l = kinds[ next++ % kinds.size() ]; k.send( o, l ); queue.push_back( { o, l } ); } if( !k.process() ) c.fail( "the calculation of the filters failed" );
    auto const v = k.take(); std::size_t const expect = std::min( limit, queue.size() ); c.compared(); if( v.size() != expect ) c.fail( v.size(), " filters calculated instead of ", expect );
    for( std::size_t i = 0; i < v.size(); ++i )
    {
      auto const & e = queue[ i ]; if( v[ i ].first != e.first || v[ i ].second.size() != F ) c.fail( "filter for channel ", v[ i ].first, " of length ", v[ i ].second.size(), " instead of channel ", e.first, " length ", F ); auto const h = lateResponse( e.second, noise[ e.first ], F );
      for( std::size_t t = 0; t < F; ++t ) { c.compared(); if( !( std::abs( v[ i ].second[ t ] - h[ t ] ) < 1e-5 ) ) c.fail( "filter of channel ", e.first, " at sample ", t, " is ", v[ i ].second[ t ], " instead of ", h[ t ] ); }
    }
    queue.erase( queue.begin(), queue.begin() + (long)v.size() ); c.state( mix( mix( nObj * 100 + F, updates ), queue.size() * 100 + (std::size_t)p ) );
  }
}
// Every combination of level, decay and attack in two neighbouring subbands, followed by one changing a single value.
static void lateShapes( Chooser & c, bool more )
{
  std::size_t const F = 16; Calc k( 1, F, 0 ); auto const noise = k.learn( c ); std::vector<float> const levels{ 0, 1, -0.5f }, decays{ 0, -4000, 300 }; std::vector<int> const attacks{ 0, 2, 5 };
  std::size_t const b = (std::size_t)c.choose( (int)B - 1, "subband" ); Late l; l.onset = 3 * c.choose( 2, "onset" ); l.level.assign( B, 0.f ); l.decay.assign( B, 0.f ); l.attack.assign( B, 0 );
  for( std::size_t i = b; i < b + 2; ++i ) { l.level[ i ] = c.pick( levels, "level" ); l.decay[ i ] = c.pick( decays, "decay" ); l.attack[ i ] = c.pick( attacks, "attack" ); }
  if( c.flag( "all other subbands equal" ) ) for( std::size_t i = 0; i < B; ++i ) if( i < b || i > b + 1 ) { l.level[ i ] = 1; l.decay[ i ] = decays[ 1 ]; l.attack[ i ] = attacks[ 1 ]; }
  for( int step = 0; step < ( more ? 3 : 2 ); ++step )
  {
    if( step ) { std::size_t const i = b + (std::size_t)( step == 2 ); switch( c.choose( 4, "change" ) ) { case 0: l.level[ i ] = 2; break; case 1: l.decay[ i ] = -700; break; case 2: l.attack[ i ] = 3; break; default: l.onset += 1; } }
    k.send( 0, l ); if( !k.process() ) c.fail( "the calculation of the filters failed" ); auto const v = k.take(); c.compared(); if( v.size() != 1 || v[ 0 ].first != 0 || v[ 0 ].second.size() != F ) c.fail( "wrong filter messages" ); auto const h = lateResponse( l, noise[ 0 ], F );
    for( std::size_t t = 0; t < F; ++t ) { c.compared(); if( !( std::abs( v[ 0 ].second[ t ] - h[ t ] ) < 1e-5 ) ) c.fail( "the filter at sample ", t, " is ", v[ 0 ].second[ t ], " instead of ", h[ t ] ); }
  }
  c.state( mix( b, (std::size_t)l.onset ) );
}
// The noise of the bands: energy density in the passband, and independence.
static void noise( Chooser & c )
{
  std::size_t const nObj = 6, F = 16384; Calc k( nObj, F, 0 ); auto const n = k.learn( c ); double const kPi = std::acos( -1.0 ), centre[ 9 ] = { 62.5, 125, 250, 500, 1000, 2000, 4000, 8000, 16000 };
  for( std::size_t b = 0; b < B; ++b )
  {
    std::vector<double> dens( B, 0.0 );
    for( std::size_t q = 0; q < B; ++q ) for( std::size_t o = 0; o < nObj; ++o ) for( int i = 0; i < 12; ++i )
    {
      double const f = std::round( centre[ q ] * std::pow( 2.0, ( i - 5.5 ) / 16 ) * F / 48000 ) * 48000 / F, w = 2 * kPi * f / 48000; double s0 = 0, s1 = 0; for( double x : n[ o ][ b ] ) { double const s = x + 2 * std::cos( w ) * s0 - s1; s1 = s0; s0 = s; }
      dens[ q ] += ( s0 * s0 + s1 * s1 - 2 * std::cos( w ) * s0 * s1 ) / ( (double)F * 12 * (double)nObj );
    }
    if( c.verbose() ) { std::string t; for( double x : dens ) t += " " + std::to_string( x ); c.note( "band ", b, t ); }
    c.compared( B ); if( !( dens[ b ] > 0.02 && dens[ b ] < 2 ) ) c.fail( "band ", b, " has an energy density of ", dens[ b ], " in its passband" ); for( std::size_t q = 0; q < B; ++q ) if( q != b && dens[ q ] > dens[ b ] ) c.fail( "the noise of band ", b, " is concentrated in band ", q );
    for( std::size_t o = 0; o < nObj; ++o ) for( std::size_t u = 0; u < o; ++u ) { c.compared(); if( n[ o ][ b ] == n[ u ][ b ] ) c.fail( "channels ", u, " and ", o, " have the same noise sequence" ); }
  }
}
// --- The complete renderer
struct Files { std::string path; Files( Grid const & f ) { static int k = 0; char b[ 200 ]; std::snprintf( b, sizeof b, "/tmp/c28-%d-%d.wav", (int)::getpid(), k++ ); path = b; SF_INFO i{}; i.samplerate = 48000; i.channels = (int)f.size(); i.format = SF_FORMAT_WAV | SF_FORMAT_FLOAT; SNDFILE * h = sf_open( b, SFM_WRITE, &i ); for( std::size_t n = 0; n < f[ 0 ].size(); ++n ) { std::vector<float> v; for( auto const & r : f ) v.push_back( (float)r[ n ] ); sf_writef_float( h, v.data(), 1 ); } sf_close( h ); } ~Files() { ::unlink( path.c_str() ); } };
struct Impulse : Runner { std::vector<double> next; bool armed = false; using Runner::Runner; double signal( std::size_t ch, long time ) override { return armed && time % (long)N == 0 ? next[ ch ] : 0; } };
static void filter( std::vector<double> & x, Biquad const & q ) { double x1 = 0, x2 = 0, y1 = 0, y2 = 0; for( double & v : x ) { double const y = q[ 0 ] * v + q[ 1 ] * x1 + q[ 2 ] * x2 - q[ 3 ] * y1 - q[ 4 ] * y2; x2 = x1; x1 = v; y2 = y1; y1 = y; v = y; } }
// Delays of less than 1.5 samples are raised to that value by the third-order interpolation.
static double const kShort[ 4 ] = { -1.0 / 16, 9.0 / 16, 9.0 / 16, -1.0 / 16 };
// The signal that gives y when delayed by 1.5 samples (least squares).
static std::vector<double> undo( std::vector<double> const & y, std::size_t F )
{
  Grid a( F, std::vector<double>( F + 1, 0.0 ) ); for( std::size_t i = 0; i < F; ++i ) for( std::size_t t = 0; t < 4; ++t ) { a[ i ][ F ] += kShort[ t ] * y[ i + t ]; for( std::size_t u = 0; u < 4; ++u ) { std::size_t const j = i + t - u; if( i + t >= u && j < F ) a[ i ][ j ] += kShort[ t ] * kShort[ u ]; } }
  for( std::size_t k = 0; k < F; ++k ) for( std::size_t i = 0; i < F; ++i ) if( i != k ) { double const f = a[ i ][ k ] / a[ k ][ k ]; for( std::size_t j = k; j <= F; ++j ) a[ i ][ j ] -= f * a[ k ][ j ]; }
  std::vector<double> h( F ); for( std::size_t k = 0; k < F; ++k ) h[ k ] = a[ k ][ F ] / a[ k ][ k ]; return h;
}
static void renderer( Chooser & c, int scenes, int variants )
{
  bool const few = scenes > 2; int const arr = few ? 2 : c.choose( 2, "array" ) * 2; std::size_t const N = !few && c.flag( "longer periods" ) ? 24 : 8, maxObj = (std::size_t)c.choose( 2, "objects" ) + 1, maxRefl = 2, F = N == 8 ? 13 : 20, cross = c.flag( "crossfade" ) ? 11 : 0; bool const gainGiven = N == 8; auto const & d = desc( arr ); auto const ls = speakers( d ); std::size_t const R = ls.size(), L = 64;
  Grid dec( R + 1, std::vector<double>( 4, 0.0 ) ); for( std::size_t r = 0; r < dec.size(); ++r ) { dec[ r ][ 0 ] = r ? 0.5 / (double)r : 1; if( r ) { dec[ r ][ r % 4 ] -= 1; dec[ r ][ 3 ] += 0.25; } } double const dg = gainGiven ? std::pow( 10.0, -3.0 / 20 ) : 1 / std::sqrt( (double)R );
  Files file( dec ); SignalFlowContext ctx( N, 48000 ); std::ostringstream cfg; cfg.precision( 9 ); cfg << "{\"numReverbObjects\": " << maxObj << ", \"lateReverbFilterLength\": " << ( (double)F - 0.5 ) / 48000 << ", \"discreteReflectionsPerObject\": " << maxRefl << ", \"maxDiscreteReflectionDelay\": 0.001, \"lateReverbCrossfadeTime\": " << ( cross ? ( (double)cross - 0.5 ) / 48000 : 0.0 ) << ", \"lateReverbDecorrelationFilters\": \"" << file.path << "\"" << ( gainGiven ? ", \"lateReverbDecorrelationGain\": -3" : "" ) << "}";
  std::unique_ptr<reverbobject::ReverbObjectRenderer> comp; { Mute m; comp.reset( new reverbobject::ReverbObjectRenderer( ctx, "r", nullptr, cfg.str(), array( arr ), 8 ) ); } Impulse run( *comp, N, 8, R ); run.next.assign( 8, 0.0 ); DB::OutputBase * port = nullptr; control<pml::ObjectVector>( run.flow, "objectIn", port );
  auto set = [&]( Scene const & s ) { fill( dynamic_cast<pml::ObjectVector &>( port->data() ), s ); port->swapBuffers(); };
  auto step = [&] { if( !run.step() ) c.fail( "processing failed" ); };
  auto settle = [&] { run.armed = false; for( std::size_t k = 0; k < 2 * maxObj + 2 + ( cross + F + 120 ) / N; ++k ) step(); };
  // Response of all outputs to an impulse at all inputs given.
  auto response = [&]( std::vector<double> const & x ) { Grid y( R, std::vector<double>() ); settle(); for( std::size_t t = 0; t < L; t += N ) { run.armed = t == 0; run.next = x; step(); for( std::size_t r = 0; r < R; ++r ) for( std::size_t n = 0; n < N; ++n ) y[ r ].push_back( run.out[ r ][ n ] ); } run.armed = false; return y; };
  std::vector<Grid> noise( maxObj, Grid( B ) );
  for( std::size_t o = 0; o < maxObj; ++o ) for( std::size_t b = 0; b < B; ++b ) { Scene s; for( std::size_t k = 0; k < maxObj; ++k ) s[ (unsigned)k + 1 ] = Rev{ true, (unsigned)k + 1, {}, k == o ? basis( b ) : Late() }; set( s ); std::vector<double> x( 8, 1.0 ); auto const y = response( x ); noise[ o ][ b ] = undo( y[ 0 ], F ); for( double & v : noise[ o ][ b ] ) v /= dg; double p = 0; for( double v : noise[ o ][ b ] ) p += v * v; c.compared(); if( !( p > 1e-12 ) ) c.fail( "no late reverberation in band ", b ); }
  Scene s; std::set<std::map<unsigned, std::size_t>> ways{ {} }; for( std::size_t k = 0; k < maxObj; ++k ) { auto w = *ways.begin(); w[ (unsigned)k + 1 ] = k; ways = { w }; s[ (unsigned)k + 1 ] = Rev{ true, (unsigned)k + 1, {}, Late() }; }
  for( int q = 0; q < scenes; ++q )
  {
    s = next( c, s, 2, variants ); if( reverbs( s ) > maxObj ) return; c.note( "scene", shown( s ) ); set( s );
    // All assignments of reverberation channels in which the objects that stay keep theirs.
    std::set<std::map<unsigned, std::size_t>> poss; for( auto const & w : ways ) { std::set<std::map<unsigned, std::size_t>> part{ {} }; for( auto const & e : s ) if( e.second.reverb ) { std::set<std::map<unsigned, std::size_t>> more; for( auto const & m : part ) for( std::size_t ch = 0; ch < maxObj; ++ch ) { auto const it = w.find( e.first ); if( it != w.end() && it->second != ch ) continue; bool taken = false; for( auto const & v : m ) taken |= v.second == ch; if( !taken ) { auto z = m; z[ e.first ] = ch; more.insert( z ); } } part = more; } poss.insert( part.begin(), part.end() ); }
    ways.clear(); std::vector<double> x( 8, 1.0 ); for( std::size_t i = 0; i < 8; ++i ) x[ i ] = 1 + 0.25 * (double)i; auto const y = response( x ); std::string why;
    for( auto const & w : poss )
    {
      Grid z( R, std::vector<double>( y[ 0 ].size(), 0.0 ) );
      for( auto const & e : s ) if( e.second.reverb )
      {
        Rev const & o = e.second; std::vector<double> in( y[ 0 ].size(), 0.0 ); in[ 0 ] = x[ o.ch ];
        for( auto const & r : o.r ) { std::vector<double> t( in.size(), 0.0 ); if( r.delay > 1 ) t[ (std::size_t)r.delay ] = x[ o.ch ] * r.level; else for( std::size_t k = 0; k < 4; ++k ) t[ k ] = x[ o.ch ] * r.level * kShort[ k ]; for( auto const & f : r.eq ) filter( t, f ); auto const g = energy( vbap( d, ls, { { 0, 0, 0 } }, r.pos ) ); for( std::size_t k = 0; k < R; ++k ) for( std::size_t n = 0; n < t.size(); ++n ) z[ k ][ n ] += g[ k ] * t[ n ]; }
        auto const h = lateResponse( o.late, noise[ w.at( e.first ) ], F ); for( std::size_t k = 0; k < R; ++k ) for( std::size_t n = 0; n < F; ++n ) for( std::size_t j = 0; j < 4; ++j ) for( std::size_t i = 0; i < 4; ++i ) if( n + j + i < z[ k ].size() ) z[ k ][ n + j + i ] += x[ o.ch ] * h[ n ] * dec[ k ][ j ] * kShort[ i ] * dg;
      }
      bool fits = true; for( std::size_t k = 0; k < R && fits; ++k ) for( std::size_t n = 0; n < z[ k ].size(); ++n ) { c.compared(); if( !( std::abs( z[ k ][ n ] - y[ k ][ n ] ) < 2e-4 ) ) { fits = false; if( why.empty() ) why = "loudspeaker " + std::to_string( k ) + " sample " + std::to_string( n ) + " is " + std::to_string( y[ k ][ n ] ) + " instead of " + std::to_string( z[ k ][ n ] ); break; } }
      if( fits ) ways.insert( w );
    }
    if( ways.empty() ) c.fail( poss.size() > 1 ? "no assignment of reverberation channels explains the output; " : "", why );
    c.state( hashStr( std::to_string( arr ) + std::to_string( N ) + std::to_string( maxObj ) + std::to_string( cross ) + shown( s ) ) );
  }
}
// Without a file, the decorrelation filters are different allpass filters of the same gain.
static void decorrelation( Chooser & c )
{
  int const arr = c.choose( 3, "array" ); std::size_t const N = 64, K = 512, R = speakers( desc( arr ) ).size(); SignalFlowContext ctx( N, 48000 ); std::unique_ptr<reverbobject::ReverbObjectRenderer> comp; { Mute m; comp.reset( new reverbobject::ReverbObjectRenderer( ctx, "r", nullptr, "{\"numReverbObjects\": 1, \"lateReverbCrossfadeTime\": 0}", array( arr ), 2 ) ); }
  Impulse run( *comp, N, 2, R ); DB::OutputBase * port = nullptr; control<pml::ObjectVector>( run.flow, "objectIn", port ); Grid y; double best = 0; double const kPi = std::acos( -1.0 );
  for( std::size_t b = 0; b < B; ++b )
  {
    Scene s; s[ 1 ] = Rev{ true, 1, {}, basis( b ) }; fill( dynamic_cast<pml::ObjectVector &>( port->data() ), s ); port->swapBuffers(); Grid z( R, std::vector<double>( K, 0.0 ) ); double e = 0; run.next = { 1, 1 }; run.armed = false; for( int k = 0; k < 12; ++k ) if( !run.step() ) c.fail( "processing failed" );
    for( std::size_t t = 0; t < K + N; t += N ) { run.armed = t == 0; if( !run.step() ) c.fail( "processing failed" ); for( std::size_t r = 0; r < R; ++r ) for( std::size_t n = 0; n < N; ++n ) { z[ r ][ ( t + n ) % K ] += run.out[ r ][ n ]; e += std::abs( run.out[ r ][ n ] ); } } if( e > best ) { best = e; y = z; }
  }
  if( y.empty() ) c.fail( "no late reverberation" ); double ref = 0;
  for( std::size_t r = 0; r < R; ++r )
  {
    for( std::size_t u = 0; u < r; ++u ) { c.compared(); if( y[ r ] == y[ u ] ) c.fail( "loudspeakers ", u, " and ", r, " have the same decorrelation filter" ); }
    for( std::size_t k = 0; k <= K * 3 / 8; ++k )
    {
      double re = 0, im = 0, pr = 0, pi = 0; for( std::size_t n = 0; n < K; ++n ) { double const w = 2 * kPi * (double)( n * k % K ) / (double)K; re += y[ r ][ n ] * std::cos( w ); im += y[ r ][ n ] * std::sin( w ); if( n < 4 ) { pr += kShort[ n ] * std::cos( w ); pi += kShort[ n ] * std::sin( w ); } }
      double const m = std::sqrt( ( re * re + im * im ) / ( pr * pr + pi * pi ) ); if( ref == 0 ) ref = m; c.compared(); if( !( std::abs( m / ref - 1 ) < 0.01 ) ) c.fail( "decorrelation filter of loudspeaker ", r, " has magnitude ", m, " in bin ", k, " instead of ", ref );
    }
  }
}
int main( int argc, char ** argv )
{
  Explorer x( argc, argv ); bool const q = x.quick(); pml::initialiseParameterLibrary();
  x.add( "parameters, two objects", [q]( Chooser & c ) { parameters( c, q ? 2 : 3, 2, q ? 9 : 6 ); }, 4 );
  x.add( "parameters, three objects", [q]( Chooser & c ) { parameters( c, q ? 3 : 4, 3, q ? 1 : 2 ); }, 4 );
  x.add( "late shapes", [q]( Chooser & c ) { lateShapes( c, !q ); }, 4 );
  x.add( "late filters", [q]( Chooser & c ) { lateFilters( c, !q ); }, 4 );
  x.add( "noise", noise, 0 );
  x.add( "decorrelation", decorrelation, 1 );
  x.add( "renderer", [q]( Chooser & c ) { renderer( c, 2, q ? 3 : 9 ); }, 5 );
  x.add( "renderer, longer histories", [q]( Chooser & c ) { renderer( c, q ? 3 : 4, 1 ); }, 4 );
  return x.run();
}
