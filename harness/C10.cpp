//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
#include "conv.hpp"
#include <libvisr/signal_flow_context.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <librbbl/fir.hpp>
#include <librbbl/multichannel_convolver_uniform.hpp>
#include <librcl/fir_filter_matrix.hpp>
#include <librrl/audio_signal_flow.hpp>
static std::size_t const nIn = 2, nOut = 2, maxF = 2;
struct Model
{
  std::vector<Filter> f; Routes r; History h; std::size_t maxRoutes, maxLen;
  Model( std::size_t mr, std::size_t ml, std::size_t inputs = nIn ) : f( maxF ), h( inputs ), maxRoutes( mr ), maxLen( ml ) {}
  double out( std::size_t o, long t ) const { double s = 0; for( auto const & e : r ) if( e.first.first == o ) s += e.second.gain * h.conv( e.first.second, f[ e.second.filter ], t ); return s; }
  std::string str() const { std::ostringstream s; for( auto & v : f ) { s << '['; for( double d : v ) s << d << ' '; s << ']'; } for( auto & e : r ) s << e.first.first << '<' << e.first.second << ':' << e.second.filter << '*' << e.second.gain << ' '; return s.str(); }
};
static rbbl::FilterRoutingList listOf( Routes const & r ) { rbbl::FilterRoutingList l; for( auto const & e : r ) l.addRouting( e.first.second, e.first.first, e.second.filter, rbbl::FilterRouting::GainType( e.second.gain ) ); return l; }
static int const cEdits = 21;
// Edits shared by the convolver class (D = convolver) and the component; every edit is applied to device and model.
template<typename D> static void edit( Chooser & c, D & d, Model & m, int op, std::size_t N )
{
  auto setIr = [&]( std::size_t idx, int v, std::size_t len ) { len = std::min( len, m.maxLen ); Filter f = fir( v, len ); d.setIr( idx, f ); m.f[ idx ] = f; };
  auto setRoute = [&]( std::size_t i, std::size_t o, std::size_t f, double g )
  {
    bool const full = m.r.count( { o, i } ) == 0 && m.r.size() >= m.maxRoutes;
    bool const th = vx::throws( [&]{ d.setRoute( i, o, f, g ); } );
    if( th != full ) c.fail( full ? "routing beyond the maximum number accepted" : "valid routing rejected" );
    if( !full ) m.r[ { o, i } ] = Route{ f, g };
  };
  auto remove = [&]( std::size_t i, std::size_t o ) { bool const was = m.r.erase( { o, i } ) > 0; bool const res = d.remove( i, o ); if( res != was ) c.fail( "removal of routing ", i, "->", o, " reported ", res, " instead of ", was ); };
  auto rejected = [&]( std::function<void()> fcn, char const * what ) { if( !vx::throws( fcn ) ) c.fail( "accepted: ", what ); };
  c.note( "edit ", op );
  switch( op )
  {
  case 0: break;
  case 1: setIr( 0, 1, 1 ); break;
  case 2: setIr( 1, 2, m.maxLen ); break;
  case 3: setIr( 0, 3, N + 1 ); break;
  case 4: setIr( 1, 0, 0 ); break;
  case 5: rejected( [&]{ d.setIr( maxF, fir( 1, 1 ) ); }, "filter index out of range" ); rejected( [&]{ d.setIr( 0, fir( 1, m.maxLen + 1 ) ); }, "filter too long" ); break;
  case 6: setRoute( 0, 0, 0, 1.0 ); break;
  case 7: setRoute( 1, 0, 1, -0.5 ); break;
  case 8: setRoute( 0, 1, 0, 2.0 ); break;
  case 9: setRoute( 0, 0, 1, 0.25 ); break;
  case 10: setRoute( 1, 1, 1, 0.0 ); break;
  case 11: rejected( [&]{ d.setRoute( nIn, 0, 0, 1 ); }, "input index out of range" ); rejected( [&]{ d.setRoute( 0, nOut, 0, 1 ); }, "output index out of range" ); rejected( [&]{ d.setRoute( 0, 0, maxF, 1 ); }, "routed filter index out of range" ); break;
  case 12: remove( 0, 0 ); break;
  case 13: remove( 1, 0 ); break;
  case 14: remove( 0, 1 ); break;
  case 15: d.clearRoutes(); m.r.clear(); break;
  case 16: { Routes r; r[ { 1, 1 } ] = Route{ 0, 1.5 }; if( m.maxRoutes > 1 ) r[ { 0, 0 } ] = Route{ 1, -1.0 }; d.setRoutes( listOf( r ) ); m.r = r; break; }
  case 17:
  {
    Routes r; for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t o = 0; o < nOut; ++o ) if( r.size() <= m.maxRoutes ) r[ { o, i } ] = Route{ 0, 1.0 };
    if( r.size() > m.maxRoutes ) rejected( [&]{ d.setRoutes( listOf( r ) ); }, "too many routings" );
    Routes b; b[ { 0, 0 } ] = Route{ 0, 3.0 }; if( m.maxRoutes > 1 ) b[ { 1, 1 } ] = Route{ maxF, 1.0 }; else b[ { 0, 0 } ].filter = maxF; rejected( [&]{ d.setRoutes( listOf( b ) ); }, "list with invalid filter index" );
    Routes e; e[ { nOut, 0 } ] = Route{ 0, 1.0 }; rejected( [&]{ d.setRoutes( listOf( e ) ); }, "list with invalid output index" );
    break;
  }
  case 18: d.clearFilters(); for( auto & f : m.f ) f.clear(); break;
  case 19: { std::size_t const len = ( m.maxLen + 1 ) / 2; std::vector<Filter> f{ fir( 4, len ) }; d.setFilters( f, len ); m.f.assign( maxF, Filter() ); m.f[ 0 ] = f[ 0 ]; break; }
  case 20: { std::vector<Filter> f( maxF + 1, fir( 5, 1 ) ); rejected( [&]{ d.setFilters( f, 1 ); }, "too many filters" ); std::vector<Filter> g{ fir( 6, m.maxLen + 1 ) }; rejected( [&]{ d.setFilters( g, m.maxLen + 1 ); }, "filters too long" ); break; }
  }
}
static void check( Chooser & c, Model & m, std::size_t N, std::function<void( std::vector<std::vector<double>> const &, std::vector<std::vector<double>> & )> const & process, double tol )
{
  long const t0 = m.h.length();
  std::vector<std::vector<double>> in( m.h.x.size(), std::vector<double>( N ) ), out( nOut, std::vector<double>( N, -99 ) );
  for( std::size_t i = 0; i < in.size(); ++i ) for( std::size_t s = 0; s < N; ++s ) in[ i ][ s ] = small( i, t0 + long( s ) );
  process( in, out );
  for( std::size_t i = 0; i < in.size(); ++i ) m.h.x[ i ].insert( m.h.x[ i ].end(), in[ i ].begin(), in[ i ].end() );
  for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s )
  {
    double const e = m.out( o, t0 + long( s ) );
    if( !( std::abs( e - out[ o ][ s ] ) <= tol ) ) c.fail( "time ", t0 + long( s ), ", output ", o, ": ", out[ o ][ s ], ", expected ", e, " with ", m.str() );
    c.compared();
  }
  c.state( vx::hashStr( m.str() ) );
}
template<typename T> struct Conv
{
  rbbl::MultichannelConvolverUniform<T> d; std::size_t al;
  Conv( std::size_t N, std::size_t ml, std::size_t mr, rbbl::FilterRoutingList const & r, std::vector<Filter> const & f, std::size_t len, std::size_t a, char const * fft ) : d( nIn, nOut, N, ml, mr, maxF, r, filterMatrix<T>( f, len, a ), a, fft ), al( a ) {}
  void setIr( std::size_t i, Filter const & f ) { std::vector<T> v = cast<T>( f ); d.setImpulseResponse( v.data(), v.size(), i ); }
  void setRoute( std::size_t i, std::size_t o, std::size_t f, double g ) { if( f == 1 ) d.setRoutingEntry( rbbl::FilterRouting( i, o, f, rbbl::FilterRouting::GainType( g ) ) ); else d.setRoutingEntry( i, o, f, T( g ) ); }
  bool remove( std::size_t i, std::size_t o ) { return d.removeRoutingEntry( i, o ); }
  void clearRoutes() { d.clearRoutingTable(); }
  void setRoutes( rbbl::FilterRoutingList const & l ) { d.initRoutingTable( l ); }
  void clearFilters() { d.clearFilters(); }
  void setFilters( std::vector<Filter> const & f, std::size_t len ) { d.initFilters( filterMatrix<T>( f, len, al ) ); }
};
template<typename T> static void convolver( Chooser & c, std::vector<std::size_t> const & Ns, std::vector<int> const & lens, std::vector<std::size_t> const & aligns, std::vector<char const *> const & ffts, std::vector<std::size_t> const & maxRoutes, int depth, bool twice )
{
  std::size_t const N = c.pick( Ns, "block" ); int const lc = c.pick( lens, "length class" );
  std::size_t const ml = lc == 0 ? 1 : lc == 1 ? N : lc == 2 ? N + 1 : lc == 3 ? 3 * N : 4 * N - 1, mr = c.pick( maxRoutes, "max routings" ), al = c.pick( aligns, "alignment" );
  char const * fft = c.pick( ffts, "fft" ); bool const init = c.flag( "initialised" );
  Model m( mr, ml );
  std::vector<Filter> f0; Routes r0; std::size_t len = 0;
  if( init ) { len = ml; f0 = { fir( 7, ml ), fir( 8, ml ) }; m.f = f0; r0[ { 0, 0 } ] = Route{ 0, 1.0 }; if( mr > 1 ) r0[ { 1, 0 } ] = Route{ 1, 0.5 }; m.r = r0; }
  c.note( sizeof( T ) == 4 ? "float" : "double", " convolver, block ", N, ", filter length ", ml, ", max routings ", mr, ", alignment ", al, ", ", fft );
  Conv<T> d( N, ml, mr, listOf( r0 ), f0, len, al, fft );
  if( d.d.numberOfInputs() != nIn || d.d.numberOfOutputs() != nOut || d.d.blockLength() != N || d.d.maxNumberOfRoutingPoints() != mr || d.d.maxNumberOfFilterEntries() != maxF || d.d.maxFilterLength() != ml ) c.fail( "dimensions reported wrongly" );
  std::size_t const pad = al ? ( N + al - 1 ) / al * al : N + 3;
  efl::BasicMatrix<T> in( nIn, pad, al ), out( nOut, pad, al );
  auto process = [&]( std::vector<std::vector<double>> const & a, std::vector<std::vector<double>> & b )
  {
    for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) in( i, s ) = T( a[ i ][ s ] );
    d.d.process( in.data(), in.stride(), out.data(), out.stride(), al );
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s ) b[ o ][ s ] = out( o, s );
  };
  double const tol = ( sizeof( T ) == 4 ? 2e-6 : 1e-10 ) * 200 * double( ml + N );
  for( int b = 0; b < depth; ++b )
  {
    edit( c, d, m, c.choose( cEdits, "edit" ), N );
    if( d.d.numberOfRoutingPoints() != m.r.size() ) c.fail( "reports ", d.d.numberOfRoutingPoints(), " routings instead of ", m.r.size() );
    if( !twice || b % 2 == 1 ) check( c, m, N, process, tol );
  }
  int const tail = int( ( ml + N - 1 ) / N ) + 1;
  for( int b = 0; b < tail; ++b ) check( c, m, N, process, tol );
}
// All block lengths and filter lengths: unit impulse and dense signal through one static filter.
template<typename T> static void sizes( Chooser & c, std::size_t maxN, std::size_t maxL, std::vector<std::size_t> const & aligns, std::vector<char const *> const & ffts, bool powersOnly )
{
  std::size_t const N = powersOnly ? std::size_t( 8 ) << c.choose( 4, "block" ) : 1 + c.choose( int( maxN ), "block" ), ml = (std::size_t)c.choose( int( maxL ) + 1, "filter length" ), al = c.pick( aligns, "alignment" ); char const * fft = c.pick( ffts, "fft" );
  c.note( sizeof( T ) == 4 ? "float" : "double", " convolver, block ", N, ", filter length ", ml, ", alignment ", al, ", ", fft );
  std::vector<Filter> f{ fir( 1, ml ), fir( 2, ml ) }; Routes r; r[ { 0, 0 } ] = Route{ 0, 1.0 }; r[ { 1, 1 } ] = Route{ 1, -2.0 }; r[ { 1, 0 } ] = Route{ 0, 0.5 };
  Conv<T> d( N, ml, 4, listOf( r ), f, ml, al, fft ); Model m( 4, ml ); m.f = f; m.r = r;
  std::size_t const pad = al ? ( N + al - 1 ) / al * al : N + 3;
  efl::BasicMatrix<T> in( nIn, pad, al ), out( nOut, pad, al );
  auto process = [&]( std::vector<std::vector<double>> const & a, std::vector<std::vector<double>> & b )
  {
    for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) in( i, s ) = T( a[ i ][ s ] );
    d.d.process( in.data(), in.stride(), out.data(), out.stride(), al );
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s ) b[ o ][ s ] = out( o, s );
  };
  for( int b = 0; b < int( ( ml + N - 1 ) / N ) * 2 + 2; ++b ) check( c, m, N, process, ( sizeof( T ) == 4 ? 2e-6 : 1e-10 ) * 200 * double( ml + N ) );
}
struct Comp
{
  rcl::FirFilterMatrix & d;
  void setIr( std::size_t i, Filter const & f ) { std::vector<SampleType> v = cast<SampleType>( f ); d.setFilter( i, v.data(), v.size() ); }
  void setRoute( std::size_t i, std::size_t o, std::size_t f, double g ) { if( f == 1 ) d.addRouting( rbbl::FilterRouting( i, o, f, rbbl::FilterRouting::GainType( g ) ) ); else d.addRouting( i, o, f, SampleType( g ) ); }
  bool remove( std::size_t i, std::size_t o ) { return d.removeRouting( i, o ); }
  void clearRoutes() { d.clearRoutings(); }
  void setRoutes( rbbl::FilterRoutingList const & l ) { d.setRoutings( l ); }
  void clearFilters() { d.clearFilters(); }
  void setFilters( std::vector<Filter> const & f, std::size_t len ) { d.setFilters( filterMatrix<SampleType>( f, len, cVectorAlignmentSamples ) ); }
};
static void component( Chooser & c, std::vector<std::size_t> const & Ns, int depth, bool messages )
{
  vx::Mute mute;
  static bool once = ( pml::initialiseParameterLibrary(), true ); (void)once;
  using CP = rcl::FirFilterMatrix::ControlPortConfig;
  std::size_t const N = c.pick( Ns, "period" ), ml = c.flag( "short" ) ? N : 2 * N + 3, mr = messages ? 2 : 3; bool const init = c.flag( "initialised" );
  SignalFlowContext const ctx( N, 48000 );
  Model m( mr, ml ); std::vector<Filter> f0; Routes r0; std::size_t len = 0;
  if( init ) { len = ml; f0 = { fir( 7, ml ), fir( 8, ml ) }; m.f = f0; r0[ { 0, 0 } ] = Route{ 0, 1.0 }; r0[ { 1, 0 } ] = Route{ 1, 0.5 }; m.r = r0; }
  rcl::FirFilterMatrix d( ctx, "fir", nullptr, nIn, nOut, ml, maxF, mr, filterMatrix<SampleType>( f0, len, cVectorAlignmentSamples ), listOf( r0 ), messages ? CP::All : CP::None );
  rrl::AudioSignalFlow flow( d ); Comp k{ d };
  using FP = pml::IndexedValueParameter<std::size_t, std::vector<SampleType>>;
  pml::MessageQueueProtocol::OutputBase * fp = nullptr, * sp = nullptr; pml::DoubleBufferingProtocol::OutputBase * ap = nullptr;
  if( messages ) { fp = dynamic_cast<pml::MessageQueueProtocol::OutputBase *>( &flow.externalParameterReceivePort( "filterInput" ) ); sp = dynamic_cast<pml::MessageQueueProtocol::OutputBase *>( &flow.externalParameterReceivePort( "singleRouting" ) ); ap = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase *>( &flow.externalParameterReceivePort( "allRoutings" ) ); }
  auto process = [&]( std::vector<std::vector<double>> const & a, std::vector<std::vector<double>> & b )
  {
    std::vector<float> in( nIn * N ), out( nOut * N, -99 );
    for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) in[ i * N + s ] = float( a[ i ][ s ] );
    flow.process( in.data(), N, 1, out.data(), N, 1 );
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s ) b[ o ][ s ] = out[ o * N + s ];
  };
  // Model of the pending messages
  struct Msg { std::size_t idx; Filter f; }; std::vector<Msg> qf; std::vector<std::pair<std::pair<std::size_t, std::size_t>, Route>> qs; bool all = false; Routes ra;
  auto sendF = [&]( std::size_t idx, Filter const & f ) { fp->enqueue( std::unique_ptr<ParameterBase>( new FP( idx, cast<SampleType>( f ) ) ) ); qf.push_back( Msg{ idx, f } ); };
  auto sendS = [&]( std::size_t i, std::size_t o, std::size_t f, double g ) { sp->enqueue( std::unique_ptr<ParameterBase>( new pml::FilterRoutingParameter( i, o, f, rbbl::FilterRouting::GainType( g ) ) ) ); qs.push_back( { { o, i }, Route{ f, g } } ); };
  auto sendA = [&]( Routes const & r ) { auto & p = dynamic_cast<pml::FilterRoutingListParameter &>( ap->data() ); static_cast<rbbl::FilterRoutingList &>( p ) = listOf( r ); ap->swapBuffers(); all = true; ra = r; };
  auto valid = [&]( std::pair<std::size_t, std::size_t> const & oi, Route const & r ) { return oi.first < nOut && oi.second < nIn && r.filter < maxF; };
  // Applies the pending messages to the model; false if an invalid one is met (the period then reports an error and processes no audio).
  auto apply = [&]() -> bool
  {
    while( !qf.empty() ) { Msg a = qf.front(); qf.erase( qf.begin() ); if( a.idx >= maxF || a.f.size() > ml ) return false; m.f[ a.idx ] = a.f; }
    if( all ) { all = false; for( auto & e : ra ) if( !valid( e.first, e.second ) ) return false; if( ra.size() > mr ) return false; m.r = ra; }
    while( !qs.empty() ) { auto e = qs.front(); qs.erase( qs.begin() ); if( !valid( e.first, e.second ) || ( !m.r.count( e.first ) && m.r.size() >= mr ) ) return false; m.r[ e.first ] = e.second; }
    return true;
  };
  int const tail = int( ( ml + N - 1 ) / N ) + 1;
  for( int b = 0; b < depth + tail; ++b )
  {
    if( b < depth && !messages ) edit( c, k, m, c.choose( cEdits, "edit" ), N );
    if( b < depth && messages )
    {
      int const ev = c.choose( 13, "messages" ); c.note( "period ", b, ": messages ", ev );
      switch( ev )
      {
      case 1: sendF( 0, fir( 1, ml ) ); break;
      case 2: sendF( 1, fir( 2, 1 ) ); sendF( 0, fir( 3, N ) ); break;
      case 3: sendF( 0, fir( 4, 1 ) ); sendF( maxF, fir( 1, 1 ) ); sendF( 1, fir( 5, ml ) ); break;
      case 4: sendF( 0, fir( 1, ml + 1 ) ); break;
      case 5: sendF( 0, Filter() ); break;
      case 6: sendS( 1, 0, 0, 2.0 ); break;
      case 7: sendS( 0, 0, 1, -1.0 ); sendS( 0, 1, 0, 0.25 ); break;
      case 8: sendS( nIn, 0, 0, 1.0 ); sendS( 1, 1, 1, 1.0 ); break;
      case 9: { Routes r; r[ { 0, 1 } ] = Route{ 1, 3.0 }; sendA( r ); break; }
      case 10: { Routes r; r[ { 0, 0 } ] = Route{ 1, 3.0 }; r[ { 1, 1 } ] = Route{ 0, -1.0 }; sendA( r ); sendS( 0, 0, 0, 0.5 ); break; }
      case 11: { Routes r; r[ { 0, 0 } ] = Route{ 0, 1.0 }; r[ { 1, 1 } ] = Route{ maxF, 1.0 }; sendA( r ); break; }
      case 12: { Routes r; r[ { 0, 0 } ] = Route{ 0, 1.0 }; r[ { 1, 1 } ] = Route{ 0, 1.0 }; r[ { 1, 0 } ] = Route{ 1, 1.0 }; sendA( r ); break; }
      }
    }
    if( messages && !apply() )
    {
      c.note( "period ", b, " has to report an error" );
      std::vector<std::vector<double>> in( nIn, std::vector<double>( N, 55.0 ) ), out( nOut, std::vector<double>( N ) );
      if( !vx::throws( [&]{ process( in, out ); } ) ) c.fail( "invalid message not reported" );
      continue;
    }
    check( c, m, N, process, 4e-4 * double( ml + N ) );
  }
}
// The single-input FIR filter for blocks of constant length with several (upsampled) impulse responses, for all lengths up to its maximum and beyond two revolutions of its buffer.
static void blockFir( Chooser & c, bool q )
{
  using rbbl::FIR; std::size_t const B = FIR::nBlockSamples, nOut = c.pick( std::vector<std::size_t>{ 1, 3, 64 }, "filters" ), up = c.pick( std::vector<std::size_t>{ 1, 2, 3, 32, 0 }, "upsampling" ), L = c.pick( std::vector<std::size_t>{ 1, 2, 63, 64, 65, 683, 1024, FIR::maxnFIRsamples - 1, FIR::maxnFIRsamples }, "length" ); if( q && nOut * L > 4096 ) return;
  std::unique_ptr<FIR> f( new FIR() ); if( c.flag( "length first" ) ) { f->setNumFIRsamples( (int)L ); f->setNumFIRs( (int)nOut ); } else { f->setNumFIRs( (int)nOut ); f->setNumFIRsamples( (int)L ); }
  std::size_t ratio = 1; if( up ) { bool const fits = up * L <= (std::size_t)FIR::maxnFIRsamples; if( ( f->setUpsampleRatio( (int)up ) == 0 ) != fits ) c.fail( "upsampling by ", up, fits ? " rejected" : " accepted" ); if( fits ) ratio = up; }
  std::map<std::size_t, double> taps[ 2 ]; for( int v = 0; v < 2; ++v ) for( std::size_t k : { std::size_t( 0 ), std::size_t( 1 ), L / 2, L - 1 } ) if( k < L ) taps[ v ][ k ] = (double)( ( k + (std::size_t)v * 3 ) % 7 + 1 );
  auto load = [&]( int v ) { efl::BasicMatrix<float> m( nOut, L ); m.zeroFill(); for( std::size_t o = 0; o < nOut; ++o ) for( auto const & t : taps[ v ] ) m( o, t.first ) = (float)( t.second + (double)o ); f->loadFIRs( m ); };
  for( std::size_t d = 0; d < 2; ++d ) { efl::BasicMatrix<float> m( nOut + d, L + 1 - d ); if( !vx::throws( [&] { f->loadFIRs( m ); } ) ) c.fail( "filters of wrong size accepted" ); }
  std::size_t const change = c.pick( std::vector<std::size_t>{ 1000, 3, 40 }, "exchange" ); load( 0 ); int v = 0; std::vector<float> in( B ); efl::BasicMatrix<float> out( nOut, B ); std::vector<float *> op; for( std::size_t o = 0; o < nOut; ++o ) op.push_back( out.row( o ) );
  for( std::size_t b = 0; b < 70; ++b )
  {
    if( b == change ) load( v = 1 ); for( std::size_t i = 0; i < B; ++i ) in[ i ] = (float)sample( 0, (long)( b * B + i ) ); out.fillValue( -99.f ); f->process( in.data(), op.data() );
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t i = 0; i < B; ++i ) { double e = 0; for( auto const & t : taps[ v ] ) e += ( t.second + (double)o ) * sample( 0, (long)( b * B + i ) - (long)( t.first * ratio ) ); if( out( o, i ) != (float)e ) c.fail( "filter ", o, ", sample ", b * B + i, " is ", out( o, i ), " instead of ", e ); } c.compared( nOut * B );
  }
  c.state( vx::mix( nOut * 64 + ratio, L ) );
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  std::vector<char const *> const kiss{ "kissfft" }, both{ "kissfft", "ffts" }, def{ "default" };
  x.add( "convolver", [=]( Chooser & c ) { convolver<float>( c, { 4 }, { 2 }, { 0 }, def, { 2 }, q ? 4 : 5, false ); }, 5 );
  x.add( "convolver, two edits per block", [=]( Chooser & c ) { convolver<double>( c, { 3 }, { 3 }, { 0 }, def, { 2 }, q ? 3 : 4, true ); }, 5 );
  x.add( "convolver configurations", [=]( Chooser & c ) { convolver<float>( c, { 1, 2, 5, 8, 16 }, { 0, 1, 2, 3, 4 }, { 0, 4, 16 }, kiss, { 1, 4 }, q ? 1 : 2, false ); }, 4 );
  x.add( "convolver configurations, double", [=]( Chooser & c ) { convolver<double>( c, { 1, 3, 4, 8 }, { 0, 1, 2, 3, 4 }, { 0, 8 }, kiss, { 1, 4 }, q ? 1 : 2, false ); }, 4 );
  x.add( "convolver with ffts", [=]( Chooser & c ) { convolver<float>( c, { 8, 16, 32 }, { 1, 3, 4 }, { 4, 16 }, { "ffts" }, { 3 }, q ? 1 : 2, false ); }, 4 );
  x.add( "sizes float", [=]( Chooser & c ) { sizes<float>( c, q ? 12 : 33, q ? 30 : 80, { 0, 16 }, kiss, false ); }, 2 );
  x.add( "sizes double", [=]( Chooser & c ) { sizes<double>( c, q ? 12 : 33, q ? 30 : 80, { 0, 8 }, kiss, false ); }, 2 );
  x.add( "sizes ffts", [=]( Chooser & c ) { sizes<float>( c, 0, q ? 40 : 130, { 16 }, both, true ); }, 2 );
  x.add( "block filter", [q]( Chooser & c ) { blockFir( c, q ); }, 3 );
  x.add( "component", [=]( Chooser & c ) { component( c, { 4, 16 }, q ? 3 : 4, false ); }, 5 );
  x.add( "component, controlled", [=]( Chooser & c ) { component( c, { 4, 8, 16 }, q ? 3 : 4, true ); }, 4 );
  return x.run();
}
