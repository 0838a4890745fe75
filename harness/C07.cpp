//! LIBS: visr rbbl efl pml objectmodel panning kissfft
//! LINK: -lboost_filesystem -lboost_system -lsndfile
#include "interp.hpp"
#include <libefl/basic_matrix.hpp>
#include <libefl/lagrange_coefficient_calculator.hpp>
#include <librbbl/circular_buffer.hpp>
#include <librbbl/lagrange_interpolator.hpp>
#include <librbbl/multichannel_delay_line.hpp>
using namespace visr;
using vx::Chooser;
// ---- circular buffer ----------------------------------------------------------------------------
template<typename T> static void ring( Chooser & c, std::vector<int> const & lengths, std::vector<int> const & channels, std::vector<int> const & aligns, int nWrites )
{
  std::size_t const L = c.pick( lengths, "length" ), C = c.pick( channels, "channels" ), A = c.pick( aligns, "alignment" );
  rbbl::CircularBuffer<T> b( C, L, A );
  c.note( "circular buffer, length ", L, ", ", C, " channels, alignment ", A );
  if( b.length() != L || b.numberOfChannels() != C ) c.fail( "length() or numberOfChannels() wrong" );
  long t = 0;
  auto verify = [&]()
  {
    std::vector<T const *> p( C );
    for( std::size_t d = 0; d <= L; ++d )
    {
      for( std::size_t ch = 0; ch < C; ++ch )
      {
        T const * r = b.getReadPointer( ch, d );
        for( std::size_t k = 0; k < d; ++k )
          if( r[ k ] != T( sample( ch, t - long( d ) + long( k ) ) ) ) c.fail( "channel ", ch, ", delay ", d, ": sample ", k, " is ", r[ k ], ", expected ", sample( ch, t - long( d ) + long( k ) ) );
        c.compared( d );
      }
      if( d < L )
      {
        b.getReadPointers( d, p.data() );
        for( std::size_t ch = 0; ch < C; ++ch ) if( d ? p[ ch ][ 0 ] != T( sample( ch, t - long( d ) ) ) : p[ ch ] != b.getReadPointer( ch, 0 ) ) c.fail( "common-delay read of channel ", ch, " at delay ", d, " wrong" );
        std::vector<std::size_t> dv( C ); for( std::size_t ch = 0; ch < C; ++ch ) dv[ ch ] = ( d + ch ) % L;
        b.getReadPointers( dv.data(), p.data() );
        for( std::size_t ch = 0; ch < C; ++ch ) if( dv[ ch ] && p[ ch ][ 0 ] != T( sample( ch, t - long( dv[ ch ] ) ) ) ) c.fail( "per-channel read of channel ", ch, " at delay ", dv[ ch ], " wrong" );
        c.compared( 2 * C );
      }
    }
    if( C )
    {
      if( !vx::throws( [&]{ b.getReadPointers( L + 1, p.data() ); } ) ) c.fail( "delay beyond the length accepted" );
      for( std::size_t ch = 0; ch < C; ++ch ) { std::vector<std::size_t> dv( C, 0 ); dv[ ch ] = L + 1; if( !vx::throws( [&]{ b.getReadPointers( dv.data(), p.data() ); } ) ) c.fail( "delay beyond the length accepted for channel ", ch ); }
    }
  };
  verify();
  for( int w = 0; w < nWrites; ++w )
  {
    int const method = c.choose( 5, "write method" );
    std::size_t const n = c.choose( int( L ) + 2, "samples" );
    c.note( "write ", n, " samples, method ", method );
    std::size_t const stride = n + 3;
    std::vector<T> data( C * stride + 1, T( -5 ) );
    std::vector<T const *> ptr( C );
    for( std::size_t ch = 0; ch < C; ++ch ) { ptr[ ch ] = &data[ ch * stride ]; for( std::size_t k = 0; k < n; ++k ) data[ ch * stride + k ] = T( sample( ch, t + long( k ) ) ); }
    bool const tooLong = n > L; bool threw = false;
    switch( method )
    {
    case 0: threw = vx::throws( [&]{ b.write( ptr.data(), C, n, 0 ); } ); break;
    case 1: threw = vx::throws( [&]{ b.write( data.data(), stride, C, n, 0 ); } ); break;
    case 2: { efl::BasicMatrix<T> m( C, n, A ); for( std::size_t ch = 0; ch < C; ++ch ) for( std::size_t k = 0; k < n; ++k ) m( ch, k ) = data[ ch * stride + k ]; threw = vx::throws( [&]{ b.write( m ); } ); break; }
    case 3:
      if( !tooLong ) for( std::size_t ch = 0; ch < C; ++ch ) std::copy( ptr[ ch ], ptr[ ch ] + n, b.getFirstWritePointer() + ch * b.stride() );
      threw = vx::throws( [&]{ b.commitWrite( n ); } ); break;
    case 4:
      { std::vector<T *> wp( C ); b.getWritePointers( wp.data() ); if( !tooLong ) for( std::size_t ch = 0; ch < C; ++ch ) std::copy( ptr[ ch ], ptr[ ch ] + n, wp[ ch ] ); threw = vx::throws( [&]{ b.commitWrite( n ); } ); break; }
    }
    if( threw != tooLong ) c.fail( tooLong ? "a write longer than the buffer was accepted" : "a valid write was rejected" );
    if( C ) { if( !vx::throws( [&]{ b.write( ptr.data(), C + 1, 0, 0 ); } ) || !vx::throws( [&]{ b.write( data.data(), stride, C - 1, 0, 0 ); } ) ) c.fail( "a write with the wrong number of channels was accepted" ); }
    if( !threw ) t += n;
    c.state( vx::mix( vx::mix( L, C ), vx::mix( std::size_t( t ) % ( 4 * L ), A ) ) );
    verify();
  }
}

// ---- Lagrange interpolation ---------------------------------------------------------------------
template<typename T, std::size_t N> static void coeffs( Chooser & c, int grid )
{
  int const g = c.choose( grid + 1, "intersample position" ); double mu = -0.5 + double( g ) / grid;
  if( N > 0 && g % 3 == 0 ) mu *= double( N ) + 1; // also extrapolate over the whole support
  efl::LagrangeCoefficientCalculator<T, N, false> a; efl::LagrangeCoefficientCalculator<T, N, true> b;
  std::vector<T> ra( N + 1 ), rb( N + 1 );
  a.calculateCoefficients( T( mu ), ra.data() ); b.calculateCoefficients( T( mu ), rb.data() );
  c.state( vx::mix( N, g ) ); c.note( "order ", N, ", position ", mu );
  for( std::size_t i = 0; i <= N; ++i )
  {
    double e = lagrange( N, i, mu ), tol = ( sizeof( T ) == 4 ? 2e-5 : 1e-12 ) * ( 1 + std::abs( e ) ) * ( 1 + std::abs( mu ) * N );
    if( !( std::abs( ra[ i ] - e ) <= tol ) ) c.fail( "order ", N, ": coefficient ", i, " at ", mu, " is ", ra[ i ], ", expected ", e );
    if( !( std::abs( rb[ N - i ] - e ) <= tol ) ) c.fail( "order ", N, " (reversed): coefficient ", i, " at ", mu, " is ", rb[ N - i ], ", expected ", e );
    c.compared( 2 );
  }
}
template<typename T> static void delayLine( Chooser & c, std::vector<int> const & orders, std::vector<int> const & blocks, std::vector<int> const & maxDelays, std::vector<int> const & channels, int nBlocksExtra, int grid )
{
  using DL = rbbl::MultichannelDelayLine<T>; using Policy = typename DL::MethodDelayPolicy;
  int const order = c.pick( orders, "order" ); std::size_t const N = c.pick( blocks, "block" ), M = c.pick( maxDelays, "maximum delay" ), C = c.pick( channels, "channels" );
  static Policy const pols[] = { Policy::Add, Policy::Limit, Policy::Reject };
  Policy const pol = pols[ c.choose( 3, "policy" ) ];
  std::size_t const align = C == 1 ? 0 : 4; // a padded and an unpadded buffer
  int const fs = 64; // exact conversion between seconds and samples
  std::string const name = order == 0 ? ( C == 1 ? "nearestSample" : "lagrangeOrder0" ) : "lagrangeOrder" + std::to_string( order );
  // a maximum delay that is not a whole number of samples is rounded up
  DL dl( C, fs, N, T( ( M - ( M > 0 ? 0.25 : 0.0 ) ) / fs ), name.c_str(), pol, align );
  c.note( name, ", block ", N, ", maximum delay ", M, " samples, ", C, " channels, policy ", int( pol ) );
  if( dl.blockLength() != N || dl.numberOfChannels() != C ) c.fail( "blockLength() or numberOfChannels() wrong" );
  double const md = 0.5 * order;
  if( std::abs( dl.methodDelaySamples() - md ) > 1e-6 || std::abs( dl.methodDelaySeconds() - md / fs ) > 1e-6 ) c.fail( "method delay reported as ", dl.methodDelaySamples(), " samples, ", dl.methodDelaySeconds(), " s; the interpolator delays by ", md, " samples" );
  std::vector<T> out( N + 2 );
  std::vector<double> ds; for( std::size_t i = 0; i <= M * grid; ++i ) ds.push_back( double( i ) / grid );
  struct G { double a, b; }; static G const gains[] = { { 1, 1 }, { 0, 1 }, { 1, -0.5 } };
  long t = 0;
  double const tol = sizeof( T ) == 4 ? ( order > 5 ? 4e-2 : 1e-2 ) : 1e-8;
  std::size_t const nBlocks = ( 2 * ( M + N + order ) + align ) / N + nBlocksExtra;
  for( std::size_t blk = 0; blk < nBlocks; ++blk )
  {
    std::size_t const stride = N + 1; std::vector<T> in( C * stride );
    for( std::size_t ch = 0; ch < C; ++ch ) for( std::size_t k = 0; k < N; ++k ) in[ ch * stride + k ] = T( sample( ch, t + long( k ) ) );
    dl.write( in.data(), stride, C, 0 ); t += N;
    for( std::size_t ch = 0; ch < C; ++ch ) for( double sd : ds ) for( double ed : ds )
    {
      // all pairs of delays, but longer ramps only in some blocks
      if( sd != ed && ( blk % 3 ) == 1 ) continue;
      G const & g = gains[ ( blk + std::size_t( sd * 2 + ed * 4 ) ) % 3 ];
      std::size_t const n = ( blk % 4 == 3 && N > 1 ) ? N - 1 : N;
      out[ n ] = T( -77 );
      bool const reject = pol == Policy::Reject && ( sd < md || ed < md );
      bool const threw = vx::throws( [&]{ dl.interpolate( out.data(), ch, n, T( sd / fs ), T( ed / fs ), T( g.a ), T( g.b ) ); } );
      if( threw != reject ) c.fail( reject ? "a delay below the method delay was accepted" : "a valid request was rejected", " (delays ", sd, " -> ", ed, " samples)" );
      if( reject ) continue;
      if( out[ n ] != T( -77 ) ) c.fail( "wrote beyond the requested samples" );
      auto eff = [&]( double d ) { return pol == Policy::Add ? d + md : std::max( d, md ); };
      for( std::size_t k = 0; k < n; ++k )
      {
        double const w = double( k + 1 ) / n, x = -double( n - 1 - k ) - ( eff( sd ) + ( eff( ed ) - eff( sd ) ) * w ), gain = g.a + ( g.b - g.a ) * w;
        double shown = 0;
        if( !admissible( order, ch, t - 1, x, gain, out[ k ], tol, shown ) ) c.fail( "block ", blk, ", channel ", ch, ", delays ", sd, " -> ", ed, " samples, sample ", k, ": ", out[ k ], ", expected ", shown );
      }
      c.compared( n );
    }
    auto refused = [&]( std::size_t ch, std::size_t n, double sd, double ed ) { return vx::throws( [&]{ dl.interpolate( out.data(), ch, n, T( sd / fs ), T( ed / fs ), T( 1 ), T( 1 ) ); } ); };
    double const okd = std::max( double( M ), 0.0 );
    if( !refused( 0, N, M + 0.5, okd ) || !refused( 0, N, okd, M + 0.5 ) ) c.fail( "a delay beyond the maximum was accepted" );
    if( pol != Policy::Limit && ( !refused( 0, N, -0.5, okd ) || !refused( 0, N, okd, -0.5 ) ) ) c.fail( "a negative delay was accepted" );
    if( !refused( C, N, okd, okd ) ) c.fail( "a nonexisting channel was accepted" );
    if( !refused( 0, N + 1, okd, okd ) ) c.fail( "more samples than the block length were accepted" );
    if( !vx::throws( [&]{ dl.write( in.data(), stride, C + 1, 0 ); } ) ) c.fail( "a write with the wrong number of channels was accepted" );
    c.state( vx::mix( vx::mix( order, N ), vx::mix( M, vx::mix( C, vx::mix( int( pol ), t % 64 ) ) ) ) );
  }
}
template<typename T, std::size_t N> static void addCoeffs( vx::Explorer & x, char const * n ) { int grid = x.quick() ? 48 : 3840; x.add( std::string( "coefficients of order " ) + std::to_string( N ) + ", " + n, [grid]( Chooser & c ) { coeffs<T, N>( c, grid ); }, 1 ); }
template<typename T> static void addAll( vx::Explorer & x, char const * n )
{
  bool const q = x.quick();
  x.add( std::string( "circular buffer, " ) + n, [q]( Chooser & c ) { ring<T>( c, { 1, 2, 3, 4, 5 }, { 1, 2 }, { 0, 4 }, q ? 2 : 3 ); }, 5 );
  x.add( std::string( "circular buffer, longer histories, " ) + n, [q]( Chooser & c ) { ring<T>( c, { 2, 3 }, { 0, 2, 3 }, { 0 }, q ? 3 : 4 ); }, 5 );
  x.add( std::string( "unknown methods, " ) + n, []( Chooser & c ) { static std::vector<std::string> const names{ "", "nearest", "lagrangeOrder", "lagrangeOrder10", "LagrangeOrder1" }; auto s = c.pick( names ); if( !vx::throws( [&]{ rbbl::MultichannelDelayLine<T> d( 1, 64, 4, T( 1 ), s.c_str() ); } ) ) c.fail( "interpolation method '", s, "' accepted" ); } );
  std::vector<int> lo{ 0, 1, 2, 3 }, hi{ 4, 5, 6, 7, 8, 9 }, bl = q ? std::vector<int>{ 1, 2, 3, 4, 8 } : std::vector<int>{ 1, 2, 3, 4, 5, 6, 7, 8, 16 }, mx = q ? std::vector<int>{ 0, 1, 3, 5 } : std::vector<int>{ 0, 1, 2, 3, 4, 5, 6, 7, 9 };
  x.add( std::string( "delay line, low orders, " ) + n, [=]( Chooser & c ) { delayLine<T>( c, lo, bl, mx, { 1, 2 }, 2, q ? 4 : 8 ); }, 5 );
  x.add( std::string( "delay line, high orders, " ) + n, [=]( Chooser & c ) { delayLine<T>( c, hi, bl, mx, { 1, 2 }, 2, q ? 2 : 4 ); }, 5 );
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv );
  addAll<float>( x, "float" ); addAll<double>( x, "double" );
  addCoeffs<float,0>( x, "float" ); addCoeffs<float,1>( x, "float" ); addCoeffs<float,2>( x, "float" ); addCoeffs<float,3>( x, "float" ); addCoeffs<float,4>( x, "float" );
  addCoeffs<float,5>( x, "float" ); addCoeffs<float,6>( x, "float" ); addCoeffs<float,7>( x, "float" ); addCoeffs<float,8>( x, "float" ); addCoeffs<float,9>( x, "float" );
  addCoeffs<double,0>( x, "double" ); addCoeffs<double,1>( x, "double" ); addCoeffs<double,2>( x, "double" ); addCoeffs<double,3>( x, "double" ); addCoeffs<double,4>( x, "double" );
  addCoeffs<double,5>( x, "double" ); addCoeffs<double,6>( x, "double" ); addCoeffs<double,7>( x, "double" ); addCoeffs<double,8>( x, "double" ); addCoeffs<double,9>( x, "double" );
  return x.run();
}
