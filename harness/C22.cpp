//! LIBS: efl
// Elementary vector functions: every function x element type x implementation variant x length x alignment.
#include "explore.hpp"
#include <libefl/initialise_library.hpp>
#include <libefl/intel_x86_64/vector_functions.hpp>
#include <libefl/matrix_functions.hpp>
#include <libefl/reference/vector_functions.hpp>
#include <libefl/vector_conversions.hpp>
#include <libefl/vector_functions.hpp>
#include <sanitizer/asan_interface.h>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <cstring>
#include <limits>
using namespace visr;
using vx::Chooser;
using std::size_t;
// ---------------------------------------------------------------- buffers
template<typename T> struct Buf
{
  unsigned char * raw = nullptr; T * p = nullptr; size_t off, len;
  Buf( size_t offset, size_t length ) : off( offset ), len( length )
  {
    size_t const bytes = ( off + len ) * sizeof( T ); void * v = nullptr;
    if( posix_memalign( &v, 512, bytes ? bytes : 1 ) ) abort();
    raw = (unsigned char *)v; std::memset( raw, 0x5a, bytes ); p = (T *)raw + off;
    // nothing before or after the range may be accessed (granularity: 8 bytes before the range)
    ASAN_POISON_MEMORY_REGION( raw, off * sizeof( T ) / 8 * 8 );
  }
  ~Buf() { ASAN_UNPOISON_MEMORY_REGION( raw, off * sizeof( T ) ); std::free( raw ); }
  Buf( Buf const & ) = delete;
  bool intact() const // the bytes in front of the range that cannot be poisoned
  {
    for( size_t i = off * sizeof( T ) / 8 * 8; i < off * sizeof( T ); ++i ) if( raw[ i ] != 0x5a ) return false;
    return true;
  }
};
template<typename T> struct Real { using type = T; static bool const complex = false; };
template<typename T> struct Real<std::complex<T>> { using type = T; static bool const complex = true; };
template<typename T> T make( double re, double, std::false_type ) { return (T)re; }
template<typename T> T make( double re, double im, std::true_type ) { return T( (typename T::value_type)re, (typename T::value_type)im ); }
// integers small enough that every product, sum and product sum is exact in the element type, large enough to need its precision
template<typename T> T val( int which, size_t i )
{
  bool const dbl = std::is_same<typename Real<T>::type, double>::value; long const m = dbl ? 2000003 : 907;
  long const a = (long)( ( 7919L * ( which + 1 ) + 104729L * (long)( i + 1 ) ) % ( 2 * m + 1 ) ) - m, b = (long)( ( 611953L * ( which + 3 ) + 15485863L * (long)( i + 2 ) ) % ( 2 * m + 1 ) ) - m;
  return make<T>( (double)a, (double)b, std::integral_constant<bool, Real<T>::complex>() );
}
// plain complex product (exact for the values above)
template<typename T> T mul( T a, T b ) { return a * b; }
template<typename R> std::complex<R> mul( std::complex<R> a, std::complex<R> b ) { return { a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real() }; }
// ---------------------------------------------------------------- implementation variants
template<efl::intel_x86_64::Feature f> static void select()
{
  using namespace efl; namespace x = efl::intel_x86_64; using C = std::complex<float>;
  VectorMultiplyWrapper<float>::set( &x::vectorMultiply<float, f> ); VectorMultiplyWrapper<double>::set( &x::vectorMultiply<double, f> ); VectorMultiplyWrapper<C>::set( &x::vectorMultiply<C, f> );
  VectorMultiplyAddInplaceWrapper<float>::set( &x::vectorMultiplyAddInplace<float, f> ); VectorMultiplyAddInplaceWrapper<double>::set( &x::vectorMultiplyAddInplace<double, f> ); VectorMultiplyAddInplaceWrapper<C>::set( &x::vectorMultiplyAddInplace<C, f> );
  VectorMultiplyConstantAddInplaceWrapper<float>::set( &x::vectorMultiplyConstantAddInplace<float, f> ); VectorMultiplyConstantAddInplaceWrapper<C>::set( &x::vectorMultiplyConstantAddInplace<C, f> );
  VectorRampScalingWrapper<float>::set( &x::vectorRampScaling<float, f> );
}
static char const * const VARIANTS[] = { "as loaded", "initialised", "uninitialised", "SSE", "AVX", "FMA" };
static int const NV = 6;
static bool setVariant( int v )
{
  static int current = 0; if( v == 0 || v == current ) return true; // 0: whatever is in force
  using F = efl::intel_x86_64::Feature;
  if( v == 3 && !__builtin_cpu_supports( "sse4.2" ) ) return false;
  if( v == 4 && !__builtin_cpu_supports( "avx" ) ) return false;
  if( v == 5 && !( __builtin_cpu_supports( "avx2" ) && __builtin_cpu_supports( "fma" ) ) ) return false;
  if( v == 1 ) efl::initialiseLibrary(); else if( v == 2 ) { efl::initialiseLibrary(); efl::uninitialiseLibrary(); }
  else if( v == 3 ) select<F::SSE>(); else if( v == 4 ) select<F::AVX>(); else select<F::FMA>();
  current = v; return true;
}
// ---------------------------------------------------------------- element-wise functions
static char const * const FN[] = { "vectorZero", "vectorFill", "vectorCopy", "vectorAdd", "vectorAddInplace", "vectorAddConstant", "vectorAddConstantInplace", "vectorSubtract", "vectorSubtractInplace",
  "vectorSubtractConstant", "vectorSubtractConstantInplace", "vectorMultiply", "vectorMultiplyInplace", "vectorMultiplyConstant", "vectorMultiplyConstantInplace", "vectorMultiplyAdd",
  "vectorMultiplyAddInplace", "vectorMultiplyConstantAdd", "vectorMultiplyConstantAddInplace", "vectorRampScaling", "vectorRampScaling (accumulate)" };
static int const NIN[] = { 0, 0, 1, 2, 1, 1, 0, 2, 1, 1, 0, 2, 1, 1, 0, 3, 2, 2, 1, 2, 2 }; // pure input operands
static int const NFN = 21;
static bool const OPTIMISED[] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; // functions the library re-dispatches
template<typename T> static void elementwise( Chooser & c, int fn, size_t maxLen, std::vector<size_t> const & offsets, std::vector<size_t> const & deltas, bool asLoaded = false )
{
  int const variant = OPTIMISED[ fn ] && !asLoaded ? 1 + c.choose( NV - 1, "variant" ) : 0; size_t const alignment = c.pick( std::vector<size_t>{ 0, 1, 2, 4, 8, 16 }, "alignment" );
  size_t const off = c.pick( offsets, "offset" ); int const dev = c.choose( NIN[ fn ] + 2, "deviating operand" ); size_t const delta = dev ? c.pick( deltas, "delta" ) : 0;
  size_t const n = c.choose( (int)maxLen + 1, "length" );
  if( !setVariant( variant ) ) return;
  c.note( FN[ fn ], ", variant ", VARIANTS[ variant ], ", element size ", sizeof( T ), ", ", n, " elements, alignment ", alignment, ", offset ", off, dev ? " (one operand +" : "", dev ? std::to_string( delta ) + ")" : std::string() );
  auto at = [&]( int operand ) { return off + ( dev == operand + 1 ? delta : 0 ); };
  Buf<T> a( at( 0 ), NIN[ fn ] > 0 ? n : 0 ), b( at( 1 ), NIN[ fn ] > 1 ? n : 0 ), d( at( 2 ), NIN[ fn ] > 2 ? n : 0 ), r( at( NIN[ fn ] ), n );
  bool const ramp = fn >= 19; T const k = val<T>( 7, 3 ), g0 = make<T>( 3, -5, std::integral_constant<bool, Real<T>::complex>() ), g1 = make<T>( -7, 2, std::integral_constant<bool, Real<T>::complex>() );
  auto av = [&]( size_t i ) { return val<T>( 0, i ); };
  auto bv = [&]( size_t i ) { return ramp ? make<T>( (double)( i % 5 ) - 2, (double)( i % 3 ), std::integral_constant<bool, Real<T>::complex>() ) : val<T>( 1, i ); };
  auto dv = [&]( size_t i ) { return val<T>( 2, i ); }; auto rv = [&]( size_t i ) { return val<T>( 3, i ); };
  for( size_t i = 0; i < n; ++i ) { if( NIN[ fn ] > 0 ) a.p[ i ] = av( i ); if( NIN[ fn ] > 1 ) b.p[ i ] = bv( i ); if( NIN[ fn ] > 2 ) d.p[ i ] = dv( i ); r.p[ i ] = rv( i ); }
  efl::ErrorCode e = efl::noError;
  switch( fn )
  {
  case 0: e = efl::vectorZero<T>( r.p, n, alignment ); break;
  case 1: e = efl::vectorFill<T>( k, r.p, n, alignment ); break;
  case 2: e = efl::vectorCopy<T>( a.p, r.p, n, alignment ); break;
  case 3: e = efl::vectorAdd<T>( a.p, b.p, r.p, n, alignment ); break;
  case 4: e = efl::vectorAddInplace<T>( a.p, r.p, n, alignment ); break;
  case 5: e = efl::vectorAddConstant<T>( k, a.p, r.p, n, alignment ); break;
  case 6: e = efl::vectorAddConstantInplace<T>( k, r.p, n, alignment ); break;
  case 7: e = efl::vectorSubtract<T>( a.p, b.p, r.p, n, alignment ); break;
  case 8: e = efl::vectorSubtractInplace<T>( a.p, r.p, n, alignment ); break;
  case 9: e = efl::vectorSubtractConstant<T>( k, a.p, r.p, n, alignment ); break;
  case 10: e = efl::vectorSubtractConstantInplace<T>( k, r.p, n, alignment ); break;
  case 11: e = efl::vectorMultiply<T>( a.p, b.p, r.p, n, alignment ); break;
  case 12: e = efl::vectorMultiplyInplace<T>( a.p, r.p, n, alignment ); break;
  case 13: e = efl::vectorMultiplyConstant<T>( k, a.p, r.p, n, alignment ); break;
  case 14: e = efl::vectorMultiplyConstantInplace<T>( k, r.p, n, alignment ); break;
  case 15: e = efl::vectorMultiplyAdd<T>( a.p, b.p, d.p, r.p, n, alignment ); break;
  case 16: e = efl::vectorMultiplyAddInplace<T>( a.p, b.p, r.p, n, alignment ); break;
  case 17: e = efl::vectorMultiplyConstantAdd<T>( k, a.p, b.p, r.p, n, alignment ); break;
  case 18: e = efl::vectorMultiplyConstantAddInplace<T>( k, a.p, r.p, n, alignment ); break;
  case 19: e = efl::vectorRampScaling<T>( a.p, b.p, r.p, g0, g1, n, false, alignment ); break;
  case 20: e = efl::vectorRampScaling<T>( a.p, b.p, r.p, g0, g1, n, true, alignment ); break;
  }
  auto aligned = [&]( int o ) { return alignment == 0 || at( o ) % alignment == 0; };
  bool allAligned = true; for( int o = 0; o <= NIN[ fn ]; ++o ) allAligned = allAligned && aligned( o );
  if( !a.intact() || !b.intact() || !d.intact() || !r.intact() ) c.fail( "data in front of an operand was changed" );
  for( size_t i = 0; i < n; ++i ) if( ( NIN[ fn ] > 0 && a.p[ i ] != av( i ) ) || ( NIN[ fn ] > 1 && b.p[ i ] != bv( i ) ) || ( NIN[ fn ] > 2 && d.p[ i ] != dv( i ) ) ) c.fail( "input operand changed at ", i );
  if( !allAligned ) { if( e == efl::noError ) c.fail( "an operand is not aligned to ", alignment, " elements but no error is reported" ); return; }
  if( e != efl::noError ) c.fail( "error ", (int)e, " is reported for correct arguments" );
  for( size_t i = 0; i < n; ++i )
  {
    T x;
    switch( fn )
    {
    case 0: x = T( 0 ); break; case 1: x = k; break; case 2: x = av( i ); break;
    case 3: x = av( i ) + bv( i ); break; case 4: x = rv( i ) + av( i ); break; case 5: x = av( i ) + k; break; case 6: x = rv( i ) + k; break;
    case 7: x = av( i ) - bv( i ); break; case 8: x = av( i ) - rv( i ); break; case 9: x = av( i ) - k; break; case 10: x = rv( i ) - k; break;
    case 11: x = mul( av( i ), bv( i ) ); break; case 12: x = mul( rv( i ), av( i ) ); break; case 13: x = mul( k, av( i ) ); break; case 14: x = mul( rv( i ), k ); break;
    case 15: x = dv( i ) + mul( av( i ), bv( i ) ); break; case 16: x = rv( i ) + mul( av( i ), bv( i ) ); break; case 17: x = bv( i ) + mul( k, av( i ) ); break; case 18: x = rv( i ) + mul( k, av( i ) ); break;
    default: x = mul( g0 + mul( g1, bv( i ) ), av( i ) ); if( fn == 20 ) x += rv( i );
    }
    if( !( r.p[ i ] == x ) ) { std::ostringstream o; o << "element " << i << " is " << r.p[ i ] << ", expected " << x; c.fail( o.str() ); }
    c.compared();
  }
  c.state( vx::mix( vx::mix( (uint64_t)fn * 8 + variant, alignment * 64 + off ), n * 16 + dev ) );
}
// ---------------------------------------------------------------- ramps, strided access
template<typename T> static void ramp( Chooser & c, size_t maxLen )
{
  using R = typename Real<T>::type; std::integral_constant<bool, Real<T>::complex> cx;
  std::vector<double> const vs{ 0, 1, -0.75, 3.1, 1e6 }; double const s = c.pick( vs, "start" ), e = c.pick( vs, "end" ); bool const si = c.flag( "start inclusive" ), ei = c.flag( "end inclusive" );
  size_t const alignment = c.pick( std::vector<size_t>{ 0, 1, 2, 4, 8 }, "alignment" ), off = c.pick( std::vector<size_t>{ 0, 1, 4 }, "offset" ), n = c.choose( (int)maxLen + 1, "length" );
  T const sv = make<T>( s, -e, cx ), ev = make<T>( e, s, cx ); Buf<T> b( off, n );
  c.note( "vectorRamp from ", s, si ? " (incl.)" : "", " to ", e, ei ? " (incl.)" : "", ", ", n, " elements, alignment ", alignment, ", offset ", off );
  efl::ErrorCode const res = efl::vectorRamp<T>( b.p, n, sv, ev, si, ei, alignment ); bool const al = alignment == 0 || off % alignment == 0;
  if( al != ( res == efl::noError ) ) c.fail( "error code ", (int)res );
  if( !b.intact() ) c.fail( "data in front of the ramp was changed" );
  if( !al ) return;
  double const tol = 4 * (double)std::numeric_limits<R>::epsilon() * ( std::fabs( s ) + std::fabs( e ) );
  for( size_t i = 0; i < n; ++i )
  {
    // position on the line from start (0) to end (1); a single element with both or neither end included lies half-way
    double const steps = (double)n + 1 - si - ei, pos = n == 1 && si == ei ? 0.5 : n == 1 ? ( si ? 0.0 : 1.0 ) : ( (double)i + ( si ? 0 : 1 ) ) / steps;
    std::complex<double> const S( s, Real<T>::complex ? -e : 0 ), E( e, Real<T>::complex ? s : 0 ), x = S + pos * ( E - S ), g( std::complex<double>( std::real( b.p[ i ] ), std::imag( b.p[ i ] ) ) );
    if( !( std::abs( g - x ) <= tol ) ) c.fail( "element ", i, " is ", g.real(), "+", g.imag(), "i, expected ", x.real(), "+", x.imag(), "i" );
    c.compared();
  }
}
template<typename T> static void strided( Chooser & c, size_t maxLen )
{
  bool const fill = c.flag( "fill" ); size_t const ss = fill ? 1 : c.choose( 5, "source stride" ), ds = 1 + c.choose( 4, "destination stride" ), n = c.choose( (int)maxLen + 1, "length" );
  size_t const alignment = c.pick( std::vector<size_t>{ 0, 1, 2, 4, 8 }, "alignment" ), so = c.pick( std::vector<size_t>{ 0, 1, 4 }, "source offset" ), dof = c.pick( std::vector<size_t>{ 0, 1, 4 }, "destination offset" );
  size_t const sl = n ? ( n - 1 ) * ss + 1 : 0, dl = n ? ( n - 1 ) * ds + 1 : 0; Buf<T> s( so, sl ), d( dof, dl );
  c.note( fill ? "vectorFillStrided" : "vectorCopyStrided", ", strides ", ss, "/", ds, ", ", n, " elements, alignment ", alignment, ", offsets ", so, "/", dof );
  for( size_t i = 0; i < sl; ++i ) s.p[ i ] = val<T>( 0, i );
  for( size_t i = 0; i < dl; ++i ) d.p[ i ] = val<T>( 1, i );
  T const k = val<T>( 2, 2 ); efl::ErrorCode const e = fill ? efl::vectorFillStrided<T>( k, d.p, ds, n, alignment ) : efl::vectorCopyStrided<T>( s.p, d.p, ss, ds, n, alignment );
  bool const al = alignment == 0 || ( dof % alignment == 0 && ( fill || so % alignment == 0 ) );
  if( al != ( e == efl::noError ) ) c.fail( "error code ", (int)e );
  if( !s.intact() || !d.intact() ) c.fail( "data in front of the range was changed" );
  if( !al ) return;
  for( size_t i = 0; i < dl; ++i ) { T const x = i % ds ? val<T>( 1, i ) : fill ? k : val<T>( 0, i / ds * ss ); if( d.p[ i ] != x ) c.fail( "element ", i, " of the destination range is wrong" ); c.compared(); }
}
// ---------------------------------------------------------------- conversions
template<typename I> static std::vector<I> values()
{
  std::vector<I> v; bool const fp = std::is_floating_point<I>::value;
  for( double x : { 0.0, 1.0, -1.0, 2.0, 100.0, -128.0, 127.0 } ) v.push_back( (I)x );
  if( fp ) for( double x : { 0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 0.49, 0.51, -0.49, -0.51, 3.75, -3.25, 126.5 } ) v.push_back( (I)x );
  if( sizeof( I ) >= 2 ) for( double x : { 32767.0, -32768.0, 1234.0 } ) v.push_back( (I)x );
  if( sizeof( I ) >= 4 ) for( double x : { 16777215.0, 16777216.0, -8388607.0 } ) v.push_back( (I)x );
  if( sizeof( I ) >= 4 && !std::is_same<I, float>::value ) { v.push_back( (I)2147483647 ); v.push_back( (I)( -2147483647 - 1 ) ); v.push_back( (I)16777217 ); v.push_back( (I)16777219 ); }
  if( fp || sizeof( I ) == 8 ) { v.push_back( (I)1099511627776.0 ); v.push_back( (I)-4503599627370496.0 ); }
  if( std::is_same<I, int64_t>::value ) { v.push_back( (I)9007199254740993LL ); v.push_back( (I)INT64_MIN ); }
  return v;
}
template<typename I, typename O> static bool convertOracle( I x, O & o )
{
  long double const v = x;
  if( std::is_floating_point<O>::value ) { o = (O)x; return true; }
  // round half to even, done by hand
  long double f = std::floor( v ), r = v - f; if( r > 0.5L || ( r == 0.5L && std::fmod( f, 2.0L ) != 0 ) ) f += 1;
  if( f < (long double)std::numeric_limits<O>::min() || f > (long double)std::numeric_limits<O>::max() ) return false; // not representable
  o = (O)f; return true;
}
template<typename I, typename O> static void convert( Chooser & c, size_t maxLen )
{
  std::vector<I> pool; for( I x : values<I>() ) { O o; if( convertOracle<I, O>( x, o ) ) pool.push_back( x ); }
  int const fn = c.choose( 4, "function" ); size_t const is = fn == 1 || fn == 3 ? c.choose( 4, "input stride" ) : 1, os = fn >= 2 ? 1 + c.choose( 3, "output stride" ) : 1;
  size_t const alignment = c.pick( std::vector<size_t>{ 0, 1, 4 }, "alignment" ), so = c.pick( std::vector<size_t>{ 0, 1, 8 }, "input offset" ), dof = c.pick( std::vector<size_t>{ 0, 3, 4 }, "output offset" );
  size_t const n = c.choose( (int)maxLen + 1, "length" ), rot = c.choose( (int)pool.size(), "first value" ); if( n < 3 && fn != 0 && rot > 2 ) return;
  size_t const sl = n ? ( n - 1 ) * is + 1 : 0, dl = n ? ( n - 1 ) * os + 1 : 0; Buf<I> s( so, sl ); Buf<O> d( dof, dl );
  for( size_t i = 0; i < sl; ++i ) s.p[ i ] = pool[ ( i + rot ) % pool.size() ];
  for( size_t i = 0; i < dl; ++i ) d.p[ i ] = (O)77;
  c.note( "conversion from type of size ", sizeof( I ), std::is_floating_point<I>::value ? " (floating point)" : "", " to ", sizeof( O ), std::is_floating_point<O>::value ? " (floating point)" : "", ", strides ", is, "/", os, ", ", n, " elements, alignment ", alignment );
  efl::ErrorCode const e = fn == 0 ? efl::vectorConvert<I, O>( s.p, d.p, n, alignment ) : fn == 1 ? efl::vectorConvertInputStride<I, O>( s.p, d.p, n, is, alignment ) : fn == 2 ? efl::vectorConvertOutputStride<I, O>( s.p, d.p, n, os, alignment ) : efl::vectorConvertInputOutputStride<I, O>( s.p, d.p, n, is, os, alignment );
  bool const al = alignment == 0 || ( so % alignment == 0 && dof % alignment == 0 );
  if( al != ( e == efl::noError ) ) c.fail( "error code ", (int)e );
  if( !s.intact() || !d.intact() ) c.fail( "data in front of the range was changed" );
  if( !al ) return;
  for( size_t i = 0; i < dl; ++i )
  {
    O x = (O)77; if( i % os == 0 ) convertOracle<I, O>( s.p[ i / os * is ], x );
    if( !( d.p[ i ] == x ) ) c.fail( "element ", i, ": ", (double)s.p[ std::min( sl - 1, i / os * is ) ], " is converted to ", (double)d.p[ i ], ", expected ", (double)x );
    c.compared();
  }
}
template<typename I> static void convertFrom( Chooser & c, size_t maxLen )
{
  switch( c.choose( 6, "output type" ) )
  {
  case 0: convert<I, float>( c, maxLen ); break; case 1: convert<I, double>( c, maxLen ); break; case 2: convert<I, int8_t>( c, maxLen ); break;
  case 3: convert<I, int16_t>( c, maxLen ); break; case 4: convert<I, int32_t>( c, maxLen ); break; case 5: convert<I, int64_t>( c, maxLen ); break;
  }
}
template<typename T> static void copyOther( Chooser & c, size_t maxLen )
{
  size_t const alignment = c.pick( std::vector<size_t>{ 0, 1, 4, 16 }, "alignment" ), so = c.choose( 5, "source offset" ), dof = c.choose( 5, "destination offset" ), n = c.choose( (int)maxLen + 1, "length" );
  Buf<T> s( so, n ), d( dof, n ); for( size_t i = 0; i < n; ++i ) { s.p[ i ] = (T)( 3 * i + 1 ); d.p[ i ] = (T)99; }
  efl::ErrorCode const e = efl::vectorCopy<T>( s.p, d.p, n, alignment ); bool const al = alignment == 0 || ( so % alignment == 0 && dof % alignment == 0 );
  c.note( "vectorCopy, element size ", sizeof( T ), ", ", n, " elements, alignment ", alignment, ", offsets ", so, "/", dof );
  if( al != ( e == efl::noError ) ) c.fail( "error code ", (int)e );
  for( size_t i = 0; al && i < n; ++i ) { if( d.p[ i ] != (T)( 3 * i + 1 ) ) c.fail( "element ", i, " is wrong" ); c.compared(); }
}
// ---------------------------------------------------------------- matrix product
template<typename T> static void product( Chooser & c, int maxDim )
{
  size_t const r = c.choose( maxDim + 1, "rows" ), k = c.choose( maxDim + 1, "inner" ), n = c.choose( maxDim + 1, "columns" ); bool const ta = c.flag( "first transposed" ), tb = c.flag( "second transposed" ), tr = c.flag( "result transposed" ); size_t const pad = c.choose( 3, "padding" );
  auto strides = [&]( size_t rows, size_t cols, bool t, size_t & rs, size_t & cs ) { if( t ) { rs = 1; cs = rows + pad; } else { rs = cols + pad; cs = 1; } return rows && cols ? ( rows - 1 ) * rs + ( cols - 1 ) * cs + 1 : 0; };
  size_t ar, ac, br, bc, rr, rc; size_t const al = strides( r, k, ta, ar, ac ), bl = strides( k, n, tb, br, bc ), rl = strides( r, n, tr, rr, rc ); Buf<T> a( 0, al ), b( 0, bl ), res( 0, rl );
  for( size_t i = 0; i < al; ++i ) a.p[ i ] = (T)( (long)( i * 37 % 101 ) - 50 ); for( size_t i = 0; i < bl; ++i ) b.p[ i ] = (T)( (long)( i * 53 % 89 ) - 44 ); for( size_t i = 0; i < rl; ++i ) res.p[ i ] = (T)-1234;
  efl::ErrorCode const e = efl::product<T>( a.p, b.p, res.p, r, n, k, ar, ac, br, bc, rr, rc ); c.note( "product ", r, "x", k, " by ", k, "x", n, ", transposed: ", ta, tb, tr, ", padding ", pad );
  if( e != efl::noError ) c.fail( "error code ", (int)e );
  std::vector<T> x( rl, (T)-1234 ); for( size_t i = 0; i < r; ++i ) for( size_t j = 0; j < n; ++j ) { T s = 0; for( size_t q = 0; q < k; ++q ) s += a.p[ i * ar + q * ac ] * b.p[ q * br + j * bc ]; x[ i * rr + j * rc ] = s; }
  for( size_t i = 0; i < rl; ++i ) { if( x[ i ] != res.p[ i ] ) c.fail( "element ", i, " is ", res.p[ i ], ", expected ", x[ i ] ); c.compared(); }
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool const q = x.quick(); using CF = std::complex<float>; using CD = std::complex<double>;
  size_t const L = q ? 35 : 70; std::vector<size_t> const offs = q ? std::vector<size_t>{ 0, 1, 2, 3, 4, 8, 16 } : std::vector<size_t>{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16 }, dl = q ? std::vector<size_t>{ 1, 4 } : std::vector<size_t>{ 1, 2, 3, 4, 8 };
  x.add( "as loaded", [=]( Chooser & c ) { int const f = c.choose( NFN, "function" ); switch( c.choose( 4, "type" ) ) { case 0: elementwise<float>( c, f, 9, { 0, 1 }, { 1 }, true ); break; case 1: elementwise<double>( c, f, 9, { 0, 1 }, { 1 }, true ); break; case 2: elementwise<CF>( c, f, 9, { 0, 1 }, { 1 }, true ); break; case 3: elementwise<CD>( c, f, 9, { 0, 1 }, { 1 }, true ); break; } } );
  x.add( "float", [=]( Chooser & c ) { elementwise<float>( c, c.choose( NFN, "function" ), L, offs, dl ); } );
  x.add( "double", [=]( Chooser & c ) { elementwise<double>( c, c.choose( NFN, "function" ), L, offs, dl ); } );
  x.add( "complex float", [=]( Chooser & c ) { elementwise<CF>( c, c.choose( NFN, "function" ), L, offs, dl ); } );
  x.add( "complex double", [=]( Chooser & c ) { elementwise<CD>( c, c.choose( NFN, "function" ), L / 2, offs, dl ); } );
  size_t const RL = q ? 9 : 40;
  x.add( "ramp float", [=]( Chooser & c ) { ramp<float>( c, RL ); } ); x.add( "ramp double", [=]( Chooser & c ) { ramp<double>( c, RL ); } );
  x.add( "ramp complex", [=]( Chooser & c ) { if( c.flag( "double" ) ) ramp<CD>( c, RL ); else ramp<CF>( c, RL ); } );
  size_t const SL = q ? 6 : 20;
  x.add( "strided", [=]( Chooser & c ) { switch( c.choose( 4, "type" ) ) { case 0: strided<float>( c, SL ); break; case 1: strided<double>( c, SL ); break; case 2: strided<CF>( c, SL ); break; case 3: strided<CD>( c, SL ); break; } } );
  size_t const CL = q ? 4 : 12;
  x.add( "conversion", [=]( Chooser & c ) { switch( c.choose( 6, "input type" ) ) { case 0: convertFrom<float>( c, CL ); break; case 1: convertFrom<double>( c, CL ); break; case 2: convertFrom<int8_t>( c, CL ); break; case 3: convertFrom<int16_t>( c, CL ); break; case 4: convertFrom<int32_t>( c, CL ); break; case 5: convertFrom<int64_t>( c, CL ); break; } } );
  x.add( "copy of other types", [=]( Chooser & c ) { switch( c.choose( 9, "type" ) ) { case 0: copyOther<int8_t>( c, 20 ); break; case 1: copyOther<uint8_t>( c, 20 ); break; case 2: copyOther<int16_t>( c, 20 ); break; case 3: copyOther<uint16_t>( c, 20 ); break; case 4: copyOther<int32_t>( c, 20 ); break; case 5: copyOther<uint32_t>( c, 20 ); break; case 6: copyOther<int64_t>( c, 20 ); break; case 7: copyOther<uint64_t>( c, 20 ); break; case 8: copyOther<long double>( c, 20 ); break; } } );
  x.add( "matrix product", [=]( Chooser & c ) { if( c.flag( "double" ) ) product<double>( c, q ? 4 : 6 ); else product<float>( c, q ? 4 : 6 ); } );
  return x.run();
}
