//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
#include "conv.hpp"
#include <libvisr/signal_flow_context.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <librbbl/crossfading_convolver_uniform.hpp>
#include <librbbl/interpolating_convolver_uniform.hpp>
#include <librcl/crossfading_fir_filter_matrix.hpp>
#include <librcl/interpolating_fir_filter_matrix.hpp>
#include <librrl/audio_signal_flow.hpp>
static std::size_t const nIn = 2, nOut = 2;
struct Slot { Filter from, to; std::size_t pos; }; // pos: samples processed since the last transition started
struct Model
{
  std::vector<Slot> f; Routes r; History h; std::size_t maxRoutes, maxLen, T;
  Model( std::size_t slots, std::size_t mr, std::size_t ml, std::size_t transition ) : f( slots, Slot{ {}, {}, transition } ), h( nIn ), maxRoutes( mr ), maxLen( ml ), T( transition ) {}
  void exchange( std::size_t i, Filter const & n, bool start ) { if( start ) { f[ i ].from = f[ i ].to; f[ i ].pos = 0; } f[ i ].to = n; }
  void reset( std::size_t i, Filter const & n ) { f[ i ] = Slot{ n, n, T }; }
  double out( std::size_t o, long t, std::size_t s ) const
  {
    double r0 = 0;
    for( auto const & e : r ) if( e.first.first == o )
    {
      Slot const & k = f[ e.second.filter ]; double const w = T == 0 ? 1.0 : std::min( 1.0, double( k.pos + s + 1 ) / double( T ) );
      double v = w * h.conv( e.first.second, k.to, t ); if( w < 1 ) v += ( 1 - w ) * h.conv( e.first.second, k.from, t );
      r0 += e.second.gain * v;
    }
    return r0;
  }
  void advance( std::size_t N ) { for( auto & k : f ) k.pos = std::min( k.pos + N, T ); }
  std::string str() const { std::ostringstream s; for( auto & v : f ) { s << '['; for( double d : v.from ) s << d << ' '; s << '>'; for( double d : v.to ) s << d << ' '; s << '@' << v.pos << '/' << T << ']'; } for( auto & e : r ) s << e.first.first << '<' << e.first.second << ':' << e.second.filter << '*' << e.second.gain << ' '; return s.str(); }
};
using Sig = std::vector<std::vector<double>>;
using Process = std::function<void( Sig const &, Sig & )>;
static rbbl::FilterRoutingList listOf( Routes const & r ) { rbbl::FilterRoutingList l; for( auto const & e : r ) l.addRouting( e.first.second, e.first.first, e.second.filter, rbbl::FilterRouting::GainType( e.second.gain ) ); return l; }
static void check( Chooser & c, Model & m, std::size_t N, Process const & process, double tol )
{
  long const t0 = m.h.length(); Sig in( nIn, std::vector<double>( N ) ), out( nOut, std::vector<double>( N, -99 ) );
  for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) in[ i ][ s ] = small( i, t0 + long( s ) );
  process( in, out );
  for( std::size_t i = 0; i < nIn; ++i ) m.h.x[ i ].insert( m.h.x[ i ].end(), in[ i ].begin(), in[ i ].end() );
  for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s )
  {
    double const e = m.out( o, t0 + long( s ), s );
    if( !( std::abs( e - out[ o ][ s ] ) <= tol ) ) c.fail( "time ", t0 + long( s ), ", output ", o, ": ", out[ o ][ s ], ", expected ", e, " with ", m.str() );
    c.compared();
  }
  m.advance( N ); c.state( vx::hashStr( m.str() ) );
}
// Device interface
struct Dev
{
  virtual ~Dev() {}
  virtual void setIr( std::size_t i, Filter const & f, bool start ) = 0;
  virtual bool canSelectTransition() const { return true; }
  virtual void setRoute( std::size_t i, std::size_t o, std::size_t f, double g ) = 0;
  virtual bool remove( std::size_t i, std::size_t o ) = 0;
  virtual void clearRoutes() = 0; virtual void setRoutes( rbbl::FilterRoutingList const & l ) = 0;
  virtual void clearFilters() = 0; virtual void setFilters( std::vector<Filter> const & f, std::size_t len ) = 0;
  virtual bool setInterpolant( std::size_t, std::vector<std::size_t> const &, std::vector<float> const &, bool ) { return false; }
  virtual void clearInterpolants() {}
  virtual bool hasClearInterpolants() const { return true; }
};
template<typename T, typename C> struct ConvDev : Dev // convolver classes
{
  std::unique_ptr<C> d; std::size_t al;
  void setRoute( std::size_t i, std::size_t o, std::size_t f, double g ) override { if( f == 1 ) d->setRoutingEntry( rbbl::FilterRouting( i, o, f, rbbl::FilterRouting::GainType( g ) ) ); else d->setRoutingEntry( i, o, f, T( g ) ); }
  bool remove( std::size_t i, std::size_t o ) override { return d->removeRoutingEntry( i, o ); }
  void clearRoutes() override { d->clearRoutingTable(); }
  void setRoutes( rbbl::FilterRoutingList const & l ) override { d->initRoutingTable( l ); }
  void clearFilters() override { d->clearFilters(); }
  void setFilters( std::vector<Filter> const & f, std::size_t len ) override { d->initFilters( filterMatrix<T>( f, len, al ) ); }
};
template<typename T> struct Xfade : ConvDev<T, rbbl::CrossfadingConvolverUniform<T>>
{
  bool transformed = false;
  void setIr( std::size_t i, Filter const & f, bool start ) override
  {
    std::vector<T> v = cast<T>( f );
    if( transformed )
    {
      efl::BasicVector<std::complex<T>> b( this->d->dftFilterRepresentationSize(), this->d->complexAlignment() );
      this->d->transformImpulseResponse( v.data(), v.size(), b.data() );
      this->d->setTransformedFilter( b.data(), i, start, this->d->complexAlignment() );
    }
    else this->d->setImpulseResponse( v.data(), v.size(), i, start, 0 );
  }
};
template<typename T> struct Interp : ConvDev<T, rbbl::InterpolatingConvolverUniform<T>>
{
  void setIr( std::size_t i, Filter const & f, bool ) override { std::vector<T> v = cast<T>( f ); this->d->setImpulseResponse( v.data(), v.size(), i ); }
  bool setInterpolant( std::size_t id, std::vector<std::size_t> const & ix, std::vector<float> const & w, bool start ) override
  {
    rbbl::InterpolationParameter const p( id, ix, w );
    if( id == 1 ) { rbbl::InterpolationParameterSet s; s.insert( p ); this->d->setInterpolants( s, start ); } else this->d->setInterpolant( p, start );
    return true;
  }
  void clearInterpolants() override { this->d->clearInterpolants(); }
};
template<typename C> struct CompDev : Dev
{
  std::unique_ptr<C> d;
  void setRoute( std::size_t i, std::size_t o, std::size_t f, double g ) override { if( f == 1 ) d->addRouting( rbbl::FilterRouting( i, o, f, rbbl::FilterRouting::GainType( g ) ) ); else d->addRouting( i, o, f, SampleType( g ) ); }
  bool remove( std::size_t i, std::size_t o ) override { return d->removeRouting( i, o ); }
  void clearRoutes() override { d->clearRoutings(); }
  void setRoutes( rbbl::FilterRoutingList const & l ) override { d->setRoutings( l ); }
  void clearFilters() override { d->clearFilters(); }
  void setFilters( std::vector<Filter> const & f, std::size_t len ) override { d->setFilters( filterMatrix<SampleType>( f, len, cVectorAlignmentSamples ) ); }
  void setIr( std::size_t i, Filter const & f, bool ) override { std::vector<SampleType> v = cast<SampleType>( f ); d->setFilter( i, v.data(), v.size() ); }
  bool canSelectTransition() const override { return false; }
  bool hasClearInterpolants() const override { return false; }
};
struct XfadeComp : CompDev<rcl::CrossfadingFirFilterMatrix> {};
struct InterpComp : CompDev<rcl::InterpolatingFirFilterMatrix>
{
  bool setInterpolant( std::size_t id, std::vector<std::size_t> const & ix, std::vector<float> const & w, bool start ) override { if( id == 0 ) d->setInterpolant( id, ix, w, start ); else d->setInterpolant( rbbl::InterpolationParameter( id, ix, w ), start ); return true; }
};
static int const cRouteEdits = 9;
static void routeEdit( Chooser & c, Dev & d, Model & m, int op )
{
  auto rejected = [&]( std::function<void()> fcn, char const * what ) { if( !vx::throws( fcn ) ) c.fail( "accepted: ", what ); };
  auto setRoute = [&]( std::size_t i, std::size_t o, std::size_t f, double g )
  {
    bool const full = m.r.count( { o, i } ) == 0 && m.r.size() >= m.maxRoutes, th = vx::throws( [&]{ d.setRoute( i, o, f, g ); } );
    if( th != full ) c.fail( full ? "routing beyond the maximum number accepted" : "valid routing rejected" );
    if( !full ) m.r[ { o, i } ] = Route{ f, g };
  };
  c.note( "routing edit ", op );
  switch( op )
  {
  case 0: setRoute( 0, 0, 1, -0.5 ); break;
  case 1: setRoute( 1, 0, 0, 2.0 ); break;
  case 2: setRoute( 0, 1, 1, 1.0 ); break;
  case 3: { bool const was = m.r.erase( { 0, 0 } ) > 0, res = d.remove( 0, 0 ); if( was != res ) c.fail( "removal of routing 0->0 reported ", res ); break; }
  case 4: { bool const was = m.r.erase( { 0, 1 } ) > 0, res = d.remove( 1, 0 ); if( was != res ) c.fail( "removal of routing 1->0 reported ", res ); break; }
  case 5: d.clearRoutes(); m.r.clear(); break;
  case 6: { Routes r; r[ { 1, 1 } ] = Route{ 0, 1.5 }; r[ { 0, 0 } ] = Route{ 1, -1.0 }; d.setRoutes( listOf( r ) ); m.r = r; break; }
  case 7: rejected( [&]{ d.setRoute( nIn, 0, 0, 1 ); }, "input index out of range" ); rejected( [&]{ d.setRoute( 0, nOut, 0, 1 ); }, "output index out of range" ); rejected( [&]{ d.setRoute( 0, 0, m.f.size(), 1 ); }, "routed filter index out of range" ); break;
  case 8:
  {
    Routes r; for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t o = 0; o < nOut; ++o ) if( r.size() <= m.maxRoutes ) r[ { o, i } ] = Route{ 0, 1.0 };
    if( r.size() > m.maxRoutes ) rejected( [&]{ d.setRoutes( listOf( r ) ); }, "too many routings" );
    Routes b; b[ { 0, 0 } ] = Route{ 0, 3.0 }; b[ { 1, 1 } ] = Route{ m.f.size(), 1.0 }; rejected( [&]{ d.setRoutes( listOf( b ) ); }, "list with invalid filter index" );
    break;
  }
  }
}
static int const cXfadeEdits = 9;
static void xfadeEdit( Chooser & c, Dev & d, Model & m, int op, std::size_t N )
{
  auto rejected = [&]( std::function<void()> fcn, char const * what ) { if( !vx::throws( fcn ) ) c.fail( "accepted: ", what ); };
  auto set = [&]( std::size_t i, int v, std::size_t len, bool start ) { if( !d.canSelectTransition() ) start = true; Filter f = fir( v, std::min( len, m.maxLen ) ); d.setIr( i, f, start ); m.exchange( i, f, start ); };
  c.note( "filter edit ", op );
  switch( op )
  {
  case 0: set( 0, 1, 1, true ); break;
  case 1: set( 0, 2, m.maxLen, true ); break;
  case 2: set( 0, 3, N + 1, false ); break;
  case 3: set( 1, 4, N, true ); break;
  case 4: set( 0, 5, 2, true ); set( 0, 6, m.maxLen, true ); break;
  case 5: rejected( [&]{ d.setIr( m.f.size(), fir( 1, 1 ), true ); }, "filter index out of range" ); rejected( [&]{ d.setIr( 2 * m.f.size(), fir( 1, 1 ), false ); }, "filter index out of range" ); rejected( [&]{ d.setIr( 0, fir( 1, m.maxLen + 1 ), true ); }, "filter too long" ); break;
  case 6: d.clearFilters(); for( auto & k : m.f ) k.from = k.to = Filter(); break;
  case 7: { std::size_t const len = ( m.maxLen + 1 ) / 2; std::vector<Filter> f{ fir( 7, len ) }; d.setFilters( f, len ); for( std::size_t i = 0; i < m.f.size(); ++i ) m.reset( i, i == 0 ? f[ 0 ] : Filter() ); break; }
  case 8: { std::vector<Filter> f( m.f.size() + 1, fir( 5, 1 ) ); rejected( [&]{ d.setFilters( f, 1 ); }, "too many filters" ); std::vector<Filter> g{ fir( 6, m.maxLen + 1 ) }; rejected( [&]{ d.setFilters( g, m.maxLen + 1 ); }, "filters too long" ); break; }
  }
}
// Interpolating devices: stored filters are the basis; the slots of the model are the interpolated filters (one per routing).
struct Basis { std::vector<Filter> f; std::size_t nInterp, maxLen; Filter mix( std::vector<std::size_t> const & ix, std::vector<float> const & w ) const { Filter r( maxLen, 0.0 ); for( std::size_t k = 0; k < ix.size(); ++k ) for( std::size_t j = 0; j < f[ ix[ k ] ].size(); ++j ) r[ j ] += w[ k ] * f[ ix[ k ] ][ j ]; return r; } };
static int const cInterpEdits = 12;
static void interpEdit( Chooser & c, Dev & d, Model & m, Basis & b, int op, std::size_t N )
{
  auto rejected = [&]( std::function<void()> fcn, char const * what ) { if( !vx::throws( fcn ) ) c.fail( "accepted: ", what ); };
  auto store = [&]( std::size_t i, int v, std::size_t len ) { Filter f = fir( v, std::min( len, m.maxLen ) ); d.setIr( i, f, true ); b.f[ i ] = f; };
  auto sel = [&]( std::size_t id, std::vector<std::size_t> ix, std::vector<float> w, bool start ) { ix.resize( b.nInterp, 0 ); w.resize( b.nInterp, 0.f ); d.setInterpolant( id, ix, w, start ); m.exchange( id, b.mix( ix, w ), start ); };
  std::size_t const last = b.f.size() - 1;
  c.note( "interpolation edit ", op );
  switch( op )
  {
  case 0: store( 0, 1, m.maxLen ); break;
  case 1: store( last, 2, N ); break;
  case 2: sel( 0, { 0, last }, { 0.25f, 0.75f }, true ); break;
  case 3: sel( 0, { last, 0 }, { 2.0f, -1.0f }, true ); break;
  case 4: sel( 1, { 1, 0 }, { 1.0f, 0.5f }, true ); break;
  case 5: sel( 0, { 0, 0 }, { 1.0f, 0.0f }, false ); break;
  case 6: sel( 1, { last, last }, { 0.5f, 0.25f }, false ); break;
  case 7:
  {
    std::vector<std::size_t> ix( b.nInterp, 0 ); std::vector<float> w( b.nInterp, 1.f );
    rejected( [&]{ d.setInterpolant( m.maxRoutes, ix, w, true ); }, "interpolant id out of range" );
    rejected( [&]{ d.setInterpolant( b.f.size() > m.maxRoutes ? b.f.size() - 1 : m.maxRoutes + 3, ix, w, true ); }, "interpolant id out of range" );
    ix.back() = b.f.size(); rejected( [&]{ d.setInterpolant( 0, ix, w, true ); }, "filter index of an interpolant out of range" );
    ix.assign( b.nInterp + 1, 0 ); w.assign( b.nInterp + 1, 1.f ); rejected( [&]{ d.setInterpolant( 0, ix, w, true ); }, "too many interpolants" );
    break;
  }
  case 8: rejected( [&]{ d.setIr( b.f.size(), fir( 1, 1 ), true ); }, "filter index out of range" ); rejected( [&]{ d.setIr( 0, fir( 1, m.maxLen + 1 ), true ); }, "filter too long" ); break;
  case 9: d.clearFilters(); for( auto & f : b.f ) f.clear(); for( auto & k : m.f ) k.from = k.to = Filter(); break;
  case 10: { std::size_t const len = ( m.maxLen + 1 ) / 2; std::vector<Filter> f{ fir( 7, len ) }; d.setFilters( f, len ); for( auto & g : b.f ) g.clear(); b.f[ 0 ] = f[ 0 ]; std::vector<Filter> e( b.f.size() + 1, fir( 5, 1 ) ); rejected( [&]{ d.setFilters( e, 1 ); }, "too many filters" ); break; }
  case 11: if( d.hasClearInterpolants() ) { d.clearInterpolants(); for( auto & k : m.f ) k.from = k.to = Filter(); } break;
  }
}
template<typename T, typename C> static Process direct( C & d, std::size_t N, std::size_t al )
{
  std::size_t const pad = al ? ( N + al - 1 ) / al * al : N + 3;
  auto in = std::make_shared<efl::BasicMatrix<T>>( nIn, pad, al ), out = std::make_shared<efl::BasicMatrix<T>>( nOut, pad, al );
  return [=, &d]( Sig const & a, Sig & b )
  {
    for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) ( *in )( i, s ) = T( a[ i ][ s ] );
    d.process( in->data(), in->stride(), out->data(), out->stride(), al );
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s ) b[ o ][ s ] = ( *out )( o, s );
  };
}
static Process viaFlow( rrl::AudioSignalFlow & flow, std::size_t N )
{
  return [=, &flow]( Sig const & a, Sig & b )
  {
    std::vector<float> in( nIn * N ), out( nOut * N, -99 );
    for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) in[ i * N + s ] = float( a[ i ][ s ] );
    flow.process( in.data(), N, 1, out.data(), N, 1 );
    for( std::size_t o = 0; o < nOut; ++o ) for( std::size_t s = 0; s < N; ++s ) b[ o ][ s ] = out[ o * N + s ];
  };
}
struct Cfg { std::vector<std::size_t> Ns; std::vector<int> lens, trans; std::vector<std::size_t> aligns; int depth; bool routes; };
static std::size_t lengthOf( int k, std::size_t N ) { return k == 0 ? 1 : k == 1 ? N : k == 2 ? N + 1 : 3 * N; }
static std::size_t transOf( int k, std::size_t N ) { return k == 0 ? 0 : k == 1 ? N : k == 2 ? 2 * N : k == 3 ? N + ( N + 1 ) / 2 : 1; }
static double tolFor( bool dbl, std::size_t ml, std::size_t N ) { return ( dbl ? 1e-10 : 2e-6 ) * 400 * double( ml + N ); }
static int tailFor( Model const & m, std::size_t N ) { return int( ( m.maxLen + N - 1 ) / N + ( m.T + N - 1 ) / N ) + 1; }
template<typename T> static void crossfading( Chooser & c, Cfg const & k )
{
  std::size_t const N = c.pick( k.Ns, "block" ), ml = lengthOf( c.pick( k.lens, "length" ), N ), tr = transOf( c.pick( k.trans, "transition" ), N ), al = c.pick( k.aligns, "alignment" ), mr = 3, mf = 2;
  bool const init = c.flag( "initialised" ), transformed = c.flag( "transformed filters" );
  Model m( mf, mr, ml, tr ); Routes r0; std::vector<Filter> f0; std::size_t len = 0;
  r0[ { 0, 0 } ] = Route{ 0, 1.0 }; r0[ { 1, 0 } ] = Route{ 1, 0.5 }; m.r = r0;
  if( init ) { len = ml; f0 = { fir( 8, ml ), fir( 9, ml ) }; for( std::size_t i = 0; i < mf; ++i ) m.reset( i, f0[ i ] ); }
  c.note( sizeof( T ) == 4 ? "float" : "double", " crossfading convolver, block ", N, ", filter length ", ml, ", transition ", tr, ", alignment ", al );
  Xfade<T> d; d.al = al; d.transformed = transformed;
  d.d.reset( new rbbl::CrossfadingConvolverUniform<T>( nIn, nOut, N, ml, mr, mf, tr, listOf( r0 ), filterMatrix<T>( f0, len, al ), al ) );
  if( d.d->maxNumberOfFilterEntries() != mf || d.d->maxNumberOfRoutingPoints() != mr || d.d->maxFilterLength() != ml || d.d->blockLength() != N || d.d->numberOfInputs() != nIn || d.d->numberOfOutputs() != nOut ) c.fail( "dimensions reported wrongly" );
  Process const p = direct<T>( *d.d, N, al );
  for( int b = 0; b < k.depth; ++b )
  {
    int const op = c.choose( 1 + cXfadeEdits + ( k.routes ? cRouteEdits : 0 ), "edit" );
    if( op > cXfadeEdits ) routeEdit( c, d, m, op - cXfadeEdits - 1 ); else if( op ) xfadeEdit( c, d, m, op - 1, N );
    if( d.d->numberOfRoutingPoints() != m.r.size() ) c.fail( "reports ", d.d->numberOfRoutingPoints(), " routings" );
    check( c, m, N, p, tolFor( sizeof( T ) == 8, ml, N ) );
  }
  for( int b = 0, n = tailFor( m, N ); b < n; ++b ) check( c, m, N, p, tolFor( sizeof( T ) == 8, ml, N ) );
}
template<typename T> static void interpolating( Chooser & c, Cfg const & k, std::vector<std::size_t> const & filters, std::vector<std::size_t> const & routes, std::vector<std::size_t> const & interp )
{
  std::size_t const N = c.pick( k.Ns, "block" ), ml = lengthOf( c.pick( k.lens, "length" ), N ), tr = transOf( c.pick( k.trans, "transition" ), N ), al = c.pick( k.aligns, "alignment" ), mr = c.pick( routes, "max routings" ), mf = c.pick( filters, "max filters" ), ni = c.pick( interp, "interpolants" );
  bool const init = c.flag( "initial interpolants" );
  Model m( mr, mr, ml, tr ); Basis b{ std::vector<Filter>( mf ), ni, ml }; Routes r0; std::vector<Filter> f0;
  r0[ { 0, 0 } ] = Route{ 0, 1.0 }; r0[ { 1, 0 } ] = Route{ 1, 0.5 }; m.r = r0;
  for( std::size_t i = 0; i < mf; ++i ) f0.push_back( fir( 10 + int( i ), ml ) );
  b.f = f0; rbbl::InterpolationParameterSet is;
  if( init ) for( std::size_t i = 0; i < 2; ++i ) { std::vector<std::size_t> ix( ni, i ); std::vector<float> w( ni, 0.5f + float( i ) ); is.insert( rbbl::InterpolationParameter( i, ix, w ) ); m.reset( i, b.mix( ix, w ) ); }
  c.note( sizeof( T ) == 4 ? "float" : "double", " interpolating convolver, block ", N, ", filter length ", ml, ", transition ", tr, ", alignment ", al, ", ", mf, " filters, ", mr, " routings, ", ni, " interpolants" );
  Interp<T> d; d.al = al;
  d.d.reset( new rbbl::InterpolatingConvolverUniform<T>( nIn, nOut, N, ml, mr, mf, ni, tr, listOf( r0 ), is, filterMatrix<T>( f0, ml, al ), al ) );
  if( d.d->maxNumberOfFilterEntries() != mf || d.d->maxNumberOfRoutingPoints() != mr || d.d->maxFilterLength() != ml || d.d->blockLength() != N || d.d->numberOfInterpolants() != ni ) c.fail( "dimensions reported wrongly" );
  Process const p = direct<T>( *d.d, N, al );
  for( int s = 0; s < k.depth; ++s )
  {
    int const op = c.choose( 1 + cInterpEdits + ( k.routes ? cRouteEdits : 0 ), "edit" );
    if( op > cInterpEdits ) routeEdit( c, d, m, op - cInterpEdits - 1 ); else if( op ) interpEdit( c, d, m, b, op - 1, N );
    check( c, m, N, p, tolFor( sizeof( T ) == 8, ml, N ) );
  }
  for( int s = 0, n = tailFor( m, N ); s < n; ++s ) check( c, m, N, p, tolFor( sizeof( T ) == 8, ml, N ) );
}
// Components: edits by method call or by messages through the control inputs.
static void components( Chooser & c, bool interp, Cfg const & k, bool messages )
{
  vx::Mute mute;
  static bool once = ( pml::initialiseParameterLibrary(), true ); (void)once;
  std::size_t const N = c.pick( k.Ns, "period" ), ml = lengthOf( c.pick( k.lens, "length" ), N ), tr = transOf( c.pick( k.trans, "transition" ), N ), mr = interp ? 2 : 3, mf = interp ? 3 : 2, ni = 2, al = cVectorAlignmentSamples;
  SignalFlowContext const ctx( N, 48000 );
  Model m( interp ? mr : mf, mr, ml, tr ); Basis b{ std::vector<Filter>( mf ), ni, ml }; Routes r0; std::vector<Filter> f0;
  r0[ { 0, 0 } ] = Route{ 0, 1.0 }; r0[ { 1, 0 } ] = Route{ 1, 0.5 }; m.r = r0;
  for( std::size_t i = 0; i < mf; ++i ) f0.push_back( fir( 10 + int( i ), ml ) );
  std::unique_ptr<Dev> dev; Component * comp;
  using FP = pml::IndexedValueParameter<std::size_t, std::vector<SampleType>>;
  if( interp )
  {
    using CP = rcl::InterpolatingFirFilterMatrix::ControlPortConfig;
    b.f = f0; rbbl::InterpolationParameterSet is; std::vector<std::size_t> ix{ 0, 1 }; std::vector<float> w{ 0.5f, 1.5f }; is.insert( rbbl::InterpolationParameter( 0, ix, w ) ); m.reset( 0, b.mix( ix, w ) );
    std::unique_ptr<InterpComp> d( new InterpComp ); d->d.reset( new rcl::InterpolatingFirFilterMatrix( ctx, "fir", nullptr, nIn, nOut, ml, mf, mr, ni, tr, filterMatrix<SampleType>( f0, ml, al ), is, listOf( r0 ), messages ? CP::Filters | CP::Interpolants : CP::None ) );
    comp = d->d.get(); dev = std::move( d );
  }
  else
  {
    using CP = rcl::CrossfadingFirFilterMatrix::ControlPortConfig;
    for( std::size_t i = 0; i < mf; ++i ) m.reset( i, f0[ i ] );
    std::unique_ptr<XfadeComp> d( new XfadeComp ); d->d.reset( new rcl::CrossfadingFirFilterMatrix( ctx, "fir", nullptr, nIn, nOut, ml, mf, mr, tr, filterMatrix<SampleType>( f0, ml, al ), listOf( r0 ), messages ? CP::Filters : CP::None ) );
    comp = d->d.get(); dev = std::move( d );
  }
  c.note( interp ? "interpolating" : "crossfading", " component, period ", N, ", filter length ", ml, ", transition ", tr );
  rrl::AudioSignalFlow flow( *comp ); Process const p = viaFlow( flow, N );
  using MQ = pml::MessageQueueProtocol::OutputBase;
  MQ * fp = messages ? dynamic_cast<MQ *>( &flow.externalParameterReceivePort( "filterInput" ) ) : nullptr, * ip = messages && interp ? dynamic_cast<MQ *>( &flow.externalParameterReceivePort( "interpolantInput" ) ) : nullptr;
  struct FMsg { std::size_t i; Filter f; }; struct IMsg { std::size_t id; std::vector<std::size_t> ix; std::vector<float> w; };
  std::vector<FMsg> qf; std::vector<IMsg> qi;
  auto sendF = [&]( std::size_t i, Filter const & f ) { fp->enqueue( std::unique_ptr<ParameterBase>( new FP( i, cast<SampleType>( f ) ) ) ); qf.push_back( FMsg{ i, f } ); };
  auto sendI = [&]( std::size_t id, std::vector<std::size_t> ix, std::vector<float> w ) { ip->enqueue( std::unique_ptr<ParameterBase>( new pml::InterpolationParameter( id, ix, w ) ) ); qi.push_back( IMsg{ id, ix, w } ); };
  auto apply = [&]() -> bool
  {
    while( !qf.empty() ) { FMsg a = qf.front(); qf.erase( qf.begin() ); if( a.i >= mf || a.f.size() > ml ) return false; if( interp ) b.f[ a.i ] = a.f; else m.exchange( a.i, a.f, true ); }
    while( !qi.empty() ) { IMsg a = qi.front(); qi.erase( qi.begin() ); bool ok = a.id < mr && a.ix.size() == ni; for( std::size_t v : a.ix ) ok = ok && v < mf; if( !ok ) return false; m.exchange( a.id, b.mix( a.ix, a.w ), true ); }
    return true;
  };
  for( int s = 0, n = k.depth + tailFor( m, N ) + 1; s < n; ++s )
  {
    if( s < k.depth && !messages )
    {
      int const nf = interp ? cInterpEdits : cXfadeEdits, op = c.choose( 1 + nf + ( k.routes ? cRouteEdits : 0 ), "edit" );
      if( op > nf ) routeEdit( c, *dev, m, op - nf - 1 ); else if( op && interp ) interpEdit( c, *dev, m, b, op - 1, N ); else if( op ) xfadeEdit( c, *dev, m, op - 1, N );
    }
    if( s < k.depth && messages )
    {
      int const ev = c.choose( interp ? 10 : 6, "messages" ); c.note( "period ", s, ": messages ", ev );
      switch( ev )
      {
      case 1: sendF( 0, fir( 1, ml ) ); break;
      case 2: sendF( 1, fir( 2, 1 ) ); sendF( 0, fir( 3, std::min( N, ml ) ) ); break;
      case 3: sendF( 0, fir( 4, 1 ) ); sendF( mf, fir( 1, 1 ) ); sendF( 1, fir( 5, ml ) ); break;
      case 4: sendF( 0, fir( 1, ml + 1 ) ); break;
      case 5: sendF( 0, Filter() ); break;
      case 6: sendI( 0, { 0, 1 }, { 0.25f, 0.75f } ); break;
      case 7: sendI( 1, { 2, 0 }, { 1.f, -1.f } ); sendF( 2, fir( 6, ml ) ); break;
      case 8: sendI( mr, { 0, 1 }, { 1.f, 1.f } ); sendI( 0, { 1, 1 }, { 1.f, 1.f } ); break;
      case 9: sendI( 0, { 0, mf }, { 1.f, 1.f } ); break;
      }
      if( !apply() )
      {
        Sig in( nIn, std::vector<double>( N, 55.0 ) ), out( nOut, std::vector<double>( N ) );
        if( !vx::throws( [&]{ p( in, out ); } ) ) c.fail( "invalid message not reported" );
        continue;
      }
    }
    else if( !apply() ) { Sig in( nIn, std::vector<double>( N, 55.0 ) ), out( nOut, std::vector<double>( N ) ); if( !vx::throws( [&]{ p( in, out ); } ) ) c.fail( "invalid message not reported" ); continue; }
    check( c, m, N, p, tolFor( false, ml, N ) );
  }
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  x.add( "crossfading, filters", [=]( Chooser & c ) { crossfading<float>( c, Cfg{ { 4 }, { 2 }, { 1, 2, 3 }, { 0 }, q ? 4 : 5, false } ); }, 6 );
  x.add( "crossfading, filters and routings", [=]( Chooser & c ) { crossfading<double>( c, Cfg{ { 3 }, { 3 }, { 2 }, { 0 }, q ? 3 : 4, true } ); }, 5 );
  x.add( "crossfading configurations", [=]( Chooser & c ) { crossfading<float>( c, Cfg{ { 1, 2, 5, 8, 16 }, { 0, 1, 2, 3 }, { 0, 1, 2, 3, 4 }, { 0, 4, 16 }, q ? 1 : 2, true } ); }, 5 );
  x.add( "crossfading configurations, double", [=]( Chooser & c ) { crossfading<double>( c, Cfg{ { 1, 4, 8 }, { 0, 3 }, { 0, 1, 2, 3, 4 }, { 0, 8 }, q ? 1 : 2, true } ); }, 5 );
  x.add( "interpolating", [=]( Chooser & c ) { interpolating<float>( c, Cfg{ { 4 }, { 2 }, { 2, 3 }, { 0 }, q ? 3 : 4, false }, { 2, 3 }, { 2, 3 }, { 2 } ); }, 6 );
  x.add( "interpolating with routings", [=]( Chooser & c ) { interpolating<double>( c, Cfg{ { 3 }, { 3 }, { 1 }, { 0 }, q ? 2 : 3, true }, { 2, 4 }, { 2, 3 }, { 1, 2, 3 } ); }, 6 );
  x.add( "interpolating configurations", [=]( Chooser & c ) { interpolating<float>( c, Cfg{ { 1, 2, 5, 8, 16 }, { 0, 1, 2, 3 }, { 0, 1, 3 }, { 0, 4, 16 }, q ? 1 : 2, true }, { 4 }, { 2 }, { 1, 2, 3 } ); }, 5 );
  x.add( "crossfading component", [=]( Chooser & c ) { components( c, false, Cfg{ { 4, 16 }, { 2 }, { 2, 3 }, {}, q ? 2 : 3, true }, false ); }, 5 );
  x.add( "crossfading component, controlled", [=]( Chooser & c ) { components( c, false, Cfg{ { 4, 8, 16 }, { 1, 3 }, { 0, 2 }, {}, q ? 3 : 4, false }, true ); }, 5 );
  x.add( "interpolating component", [=]( Chooser & c ) { components( c, true, Cfg{ { 4, 16 }, { 2 }, { 2, 3 }, {}, q ? 2 : 3, true }, false ); }, 5 );
  x.add( "interpolating component, controlled", [=]( Chooser & c ) { components( c, true, Cfg{ { 4, 8, 16 }, { 1, 3 }, { 0, 2 }, {}, q ? 3 : 4, false }, true ); }, 5 );
  return x.run();
}
