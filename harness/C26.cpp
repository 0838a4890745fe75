//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile
// Containers and parameter types: textual construction, operation sequences, copies.
#include "explore.hpp"
#include <cctype>
#include <complex>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <libefl/aligned_array.hpp>
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <libpml/biquad_parameter.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/string_parameter.hpp>
#include <libpml/time_frequency_parameter.hpp>
#include <libpml/time_frequency_parameter_config.hpp>
#include <libpml/vector_parameter.hpp>
#include <libvisr/constants.hpp>
#include <libvisr/parameter_factory.hpp>
#include <sndfile.h>
#include <unistd.h>
using namespace visr;
using vx::Chooser;
using cf = std::complex<float>; using cd = std::complex<double>;

// ---------------------------------------------------------------- text
// One row: numbers separated by white space or single commas, optionally followed by a comment. Returns false if malformed.
static bool lexNumber( std::string const & s, std::size_t & p, double & v )
{
  std::size_t q = p; auto digit = [&]( std::size_t i ) { return i < s.size() && std::isdigit( (unsigned char)s[ i ] ); };
  if( q < s.size() && ( s[ q ] == '+' || s[ q ] == '-' ) ) ++q;
  std::size_t const d0 = q; while( digit( q ) ) ++q; bool const intPart = q > d0;
  if( q < s.size() && s[ q ] == '.' ) { std::size_t r = q + 1; while( digit( r ) ) ++r; if( intPart || r > q + 1 ) q = r; else return false; } else if( !intPart ) return false;
  if( q < s.size() && ( s[ q ] == 'e' || s[ q ] == 'E' ) ) { std::size_t r = q + 1; if( r < s.size() && ( s[ r ] == '+' || s[ r ] == '-' ) ) ++r; std::size_t const e0 = r; while( digit( r ) ) ++r; if( r > e0 ) q = r; }
  v = std::strtod( s.substr( p, q - p ).c_str(), nullptr ); p = q; return true;
}
static bool parseRow( std::string const & s, std::vector<double> & out )
{
  std::size_t p = 0; auto ws = [&] { while( p < s.size() && std::isspace( (unsigned char)s[ p ] ) ) ++p; }; bool comma = false;
  for( ws(); p < s.size(); ws() )
  {
    if( s[ p ] == '%' && !comma ) return true;
    if( s[ p ] == ',' ) { if( comma || out.empty() ) return false; comma = true; ++p; continue; }
    double v; if( !lexNumber( s, p, v ) ) return false;
    out.push_back( v ); comma = false;
  }
  return !comma;
}
static bool parseMatrix( std::string const & s, std::vector<std::vector<double>> & m )
{
  std::size_t p = 0;
  for( ;; ) { std::size_t e = s.find_first_of( ";\n", p ); std::vector<double> r; if( !parseRow( s.substr( p, e == std::string::npos ? e : e - p ), r ) ) return false; if( !r.empty() ) { if( !m.empty() && m[ 0 ].size() != r.size() ) return false; m.push_back( r ); } if( e == std::string::npos ) return true; p = e + 1; }
}
static std::string const kTok[] = { "1", "-2.5", ".5", ",", " ", ";", "\n", "%", "x", "e1", "\t", "+3" };
static bool alignedPtr( void const * p, std::size_t bytes ) { return bytes == 0 || reinterpret_cast<std::uintptr_t>( p ) % bytes == 0; }
template<typename T> static void checkMatrix( Chooser & c, std::function<pml::MatrixParameter<T>()> make, std::vector<std::vector<double>> const * want, std::size_t align )
{
  c.compared();
  bool thrown = false;
  try
  {
    pml::MatrixParameter<T> m = make();
    if( !want ) c.fail( "malformed or ragged text accepted" );
    if( m.numberOfRows() != want->size() || m.numberOfColumns() != ( want->empty() ? 0 : ( *want )[ 0 ].size() ) ) c.fail( "matrix has size ", m.numberOfRows(), "x", m.numberOfColumns(), ", the text has ", want->size(), " rows" );
    for( std::size_t i = 0; i < want->size(); ++i ) { if( !alignedPtr( m.row( i ), align * sizeof( T ) ) ) c.fail( "row not aligned" ); for( std::size_t j = 0; j < ( *want )[ i ].size(); ++j ) if( std::abs( m( i, j ) - T( ( *want )[ i ][ j ] ) ) > 1e-6 * std::abs( ( *want )[ i ][ j ] ) ) c.fail( "entry ", i, ",", j, " is ", m( i, j ), " instead of ", ( *want )[ i ][ j ] ); }
  }
  catch( std::exception const & e ) { thrown = true; if( c.verbose() ) c.note( e.what() ); }
  if( thrown && want ) c.fail( "well-formed text rejected" );
}
template<typename T> static void checkVector( Chooser & c, std::function<pml::VectorParameter<T>()> make, std::vector<double> const * want, std::size_t align )
{
  c.compared(); bool thrown = false;
  try
  {
    pml::VectorParameter<T> v = make();
    if( !want ) c.fail( "malformed text accepted" );
    if( v.size() != want->size() ) c.fail( "vector has ", v.size(), " elements instead of ", want->size() );
    if( !v.size() ? false : !alignedPtr( v.data(), align * sizeof( T ) ) ) c.fail( "vector not aligned" );
    for( std::size_t i = 0; i < v.size(); ++i ) if( std::abs( v[ i ] - T( ( *want )[ i ] ) ) > 1e-6 * std::abs( ( *want )[ i ] ) ) c.fail( "element ", i, " is ", v[ i ], " instead of ", ( *want )[ i ] );
  }
  catch( std::exception const & e ) { thrown = true; if( c.verbose() ) c.note( e.what() ); }
  if( thrown && want ) c.fail( "well-formed text rejected" );
}
template<typename T> static void text( Chooser & c, int maxTok, bool vector )
{
  std::size_t const align = vector ? 4 : 2; std::string s; int const n = c.choose( maxTok + 1, "tokens" ); bool comment = false;
  for( int i = 0; i < n; ++i ) { int const k = c.choose( 12, "token" ); if( vector && comment && k == 6 ) return; comment |= k == 7; s += kTok[ k ]; }
  if( c.verbose() ) c.note( s );
  for( std::size_t e = s.find( 'e' ); e != std::string::npos; e = s.find( 'e', e + 1 ) ) if( e + 2 < s.size() && ( std::isdigit( (unsigned char)s[ e + 2 ] ) ) ) return; // no exponents with several digits (beyond the range of numbers)
  bool const viaStream = s.size() % 2;
  if( vector ) { std::vector<double> w; bool const ok = parseRow( s, w ); checkVector<T>( c, [&] { std::istringstream is( s ); return viaStream ? pml::VectorParameter<T>::fromStream( is, align ) : pml::VectorParameter<T>::fromString( s, align ); }, ok ? &w : nullptr, align ); }
  else { std::vector<std::vector<double>> w; bool const ok = parseMatrix( s, w ); checkMatrix<T>( c, [&] { std::istringstream is( s ); return viaStream ? pml::MatrixParameter<T>::fromStream( is, align ) : pml::MatrixParameter<T>::fromString( s, align ); }, ok ? &w : nullptr, align ); }
}
// Regular matrices and vectors of every size, with every separator and alignment, also as text and audio files.
struct Scratch { std::string dir; Scratch() { char t[] = "/tmp/vxC26XXXXXX"; dir = mkdtemp( t ); } ~Scratch() { unlink( ( dir + "/f" ).c_str() ); rmdir( dir.c_str() ); } };
template<typename T> static void shapes( Chooser & c )
{
  std::size_t const rows = 1 + (std::size_t)c.choose( 4, "rows" ), cols = 1 + (std::size_t)c.choose( 5, "columns" ), align = c.pick( std::vector<std::size_t>{ 0, 1, 2, 4, 16 }, "alignment" );
  int const source = c.choose( 3, "source" ); Scratch scratch; std::string const file = scratch.dir + "/f";
  std::vector<std::vector<double>> w( rows, std::vector<double>( cols ) ); for( std::size_t i = 0; i < rows; ++i ) for( std::size_t j = 0; j < cols; ++j ) w[ i ][ j ] = ( (double)( i * 7 + j ) - 8 ) / 64.;
  if( source == 2 )
  {
    SF_INFO info{}; info.samplerate = 48000; info.channels = (int)rows; info.format = SF_FORMAT_WAV | SF_FORMAT_FLOAT; SNDFILE * f = sf_open( file.c_str(), SFM_WRITE, &info ); if( !f ) { std::perror( "sf_open" ); std::abort(); }
    std::vector<float> data; for( std::size_t j = 0; j < cols; ++j ) for( std::size_t i = 0; i < rows; ++i ) data.push_back( (float)w[ i ][ j ] ); sf_writef_float( f, data.data(), (sf_count_t)cols ); sf_close( f );
    checkMatrix<T>( c, [&] { return pml::MatrixParameter<T>::fromAudioFile( file, align ); }, &w, align );
    checkVector<T>( c, [&] { return pml::VectorParameter<T>::fromAudioFile( file, align ); }, rows == 1 ? &w[ 0 ] : nullptr, align );
    if( !vx::throws( [&] { pml::MatrixParameter<T>::fromAudioFile( scratch.dir + "/none", align ); } ) || !vx::throws( [&] { pml::VectorParameter<T>::fromAudioFile( scratch.dir, align ); } ) ) c.fail( "missing audio file accepted" );
    return;
  }
  char const * colSep = c.pick( std::vector<char const *>{ " ", ",", " , ", "\t", "  " }, "column separator" ); char const * rowSep = c.pick( std::vector<char const *>{ "\n", ";", ";\n", "\n\n", " % comment\n", " ; %\n" }, "row separator" ); bool const trail = c.flag( "trailing separator" );
  std::ostringstream s, v; s.precision( 17 ); v.precision( 17 );
  for( std::size_t i = 0; i < rows; ++i ) { if( i ) s << rowSep; for( std::size_t j = 0; j < cols; ++j ) s << ( j ? colSep : "" ) << w[ i ][ j ]; } if( trail ) s << rowSep;
  for( std::size_t j = 0; j < cols; ++j ) v << ( j ? colSep : "" ) << w[ 0 ][ j ];
  if( c.verbose() ) c.note( s.str() );
  if( source == 0 ) { checkMatrix<T>( c, [&] { return pml::MatrixParameter<T>::fromString( s.str(), align ); }, &w, align ); checkVector<T>( c, [&] { return pml::VectorParameter<T>::fromString( v.str(), align ); }, &w[ 0 ], align ); }
  else
  {
    { std::ofstream f( file ); f << s.str(); } checkMatrix<T>( c, [&] { return pml::MatrixParameter<T>::fromTextFile( file, align ); }, &w, align );
    { std::ofstream f( file ); f << v.str(); } checkVector<T>( c, [&] { return pml::VectorParameter<T>::fromTextFile( file, align ); }, &w[ 0 ], align );
    if( !vx::throws( [&] { pml::MatrixParameter<T>::fromTextFile( scratch.dir + "/none", align ); } ) || !vx::throws( [&] { pml::VectorParameter<T>::fromTextFile( scratch.dir, align ); } ) ) c.fail( "missing text file accepted" );
  }
}
// ---------------------------------------------------------------- containers
template<typename T> struct RefM { std::size_t r = 0, k = 0; std::vector<std::vector<T>> v; void set( std::size_t rr, std::size_t kk, T x = T( 0 ) ) { r = rr; k = kk; v.assign( r, std::vector<T>( k, x ) ); } };
template<typename T> static void matrixOps( Chooser & c, int depth )
{
  using M = efl::BasicMatrix<T>; std::vector<std::size_t> const aligns{ 0, 1, 2, 4, 16 };
  std::size_t const a1 = c.pick( aligns, "alignment" ), a2 = c.flag( "second alignment differs" ) ? ( a1 == 4 ? 2 : 4 ) : a1;
  std::size_t const r = (std::size_t)c.choose( 3, "rows" ), k = c.pick( std::vector<std::size_t>{ 0, 1, 3, 5 }, "columns" );
  std::unique_ptr<M> m( c.flag( "empty" ) ? new M( a1 ) : new M( r, k, a1 ) ), o( new M( 2, 3, a2 ) ); RefM<T> rm, ro; rm.set( m->numberOfRows(), m->numberOfColumns() ); ro.set( 2, 3 );
  if( vx::throws( [&] { M x( 1, 1, 3 ); } ) == false ) c.fail( "alignment 3 accepted" );
  auto check = [&]( M const & x, RefM<T> const & y, std::size_t a, char const * what ) {
    c.compared(); a = a ? a : 1;
    if( x.numberOfRows() != y.r || x.numberOfColumns() != y.k || x.alignmentElements() != a ) c.fail( what, ": shape ", x.numberOfRows(), "x", x.numberOfColumns(), " alignment ", x.alignmentElements(), " instead of ", y.r, "x", y.k, " alignment ", a );
    if( y.r * y.k == 0 ) { if( !vx::throws( [&] { x.at( 0, 0 ); } ) ) c.fail( what, ": access to an empty matrix accepted" ); return; }
    if( x.stride() < y.k || x.stride() % a ) c.fail( what, ": stride ", x.stride() );
    for( std::size_t i = 0; i < y.r; ++i ) { if( !alignedPtr( x.row( i ), a * sizeof( T ) ) || x.row( i ) != x.data() + i * x.stride() ) c.fail( what, ": row ", i, " misplaced" ); for( std::size_t j = 0; j < y.k; ++j ) if( x( i, j ) != y.v[ i ][ j ] || x.at( i, j ) != y.v[ i ][ j ] || x.row( i )[ j ] != y.v[ i ][ j ] ) c.fail( what, ": entry ", i, ",", j, " is ", x( i, j ), " instead of ", y.v[ i ][ j ] ); }
    if( !vx::throws( [&] { x.at( y.r, 0 ); } ) || !vx::throws( [&] { x.at( 0, y.k ); } ) ) c.fail( what, ": access outside the matrix accepted" ); };
  check( *m, rm, a1, "new" ); check( *o, ro, a2, "other" );
  for( int d = 0; d < depth; ++d )
  {
    T const val = T( (float)( d + 1 ) * 1.5f );
    switch( c.choose( 9, "operation" ) )
    {
    case 0: { std::size_t const rr = (std::size_t)c.choose( 3, "rows" ), kk = c.pick( std::vector<std::size_t>{ 0, 2, 3 }, "columns" ); m->resize( rr, kk ); rm.set( rr, kk ); break; }
    case 1: m->zeroFill(); rm.set( rm.r, rm.k ); break;
    case 2: m->fillValue( val ); rm.set( rm.r, rm.k, val ); break;
    case 3: if( rm.r && rm.k ) { ( *m )( rm.r - 1, 0 ) = val; m->at( 0, rm.k - 1 ) = val + T( 1 ); rm.v[ rm.r - 1 ][ 0 ] = val; rm.v[ 0 ][ rm.k - 1 ] = val + T( 1 ); } break;
    case 4: { std::vector<T> buf( 8 ); for( int i = 0; i < 8; ++i ) buf[ (std::size_t)i ] = val + T( (float)i ); if( rm.r ) { m->setRow( rm.r - 1, buf.data() ); for( std::size_t j = 0; j < rm.k; ++j ) rm.v[ rm.r - 1 ][ j ] = buf[ j ]; } if( rm.k ) { m->setColumn( rm.k - 1, buf.data() + 1 ); for( std::size_t i = 0; i < rm.r; ++i ) rm.v[ i ][ rm.k - 1 ] = buf[ i + 1 ]; } break; }
    case 5: { bool const fits = rm.r == ro.r && rm.k == ro.k; if( vx::throws( [&] { m->copy( *o ); } ) == fits ) c.fail( "copying a ", ro.r, "x", ro.k, " to a ", rm.r, "x", rm.k, " matrix" ); if( fits ) rm = ro; break; }
    case 6: { bool const fits = rm.r == ro.r && rm.k == ro.k && ( a1 ? a1 : 1 ) == ( a2 ? a2 : 1 ); if( vx::throws( [&] { m->swap( *o ); } ) == fits ) c.fail( "swapping matrices" ); if( fits ) std::swap( rm, ro ); break; }
    case 7: { M moved( std::move( *m ) ); check( moved, rm, a1, "move constructed" ); m.reset( new M( std::move( moved ) ) ); break; }
    case 8: { bool const fits = ( a1 ? a1 : 1 ) == ( a2 ? a2 : 1 ); if( vx::throws( [&] { *m = std::move( *o ); } ) == fits ) c.fail( "move assignment of matrices with ", fits ? "equal" : "different", " alignments" ); if( fits ) { rm = ro; o.reset( new M( 2, 3, a2 ) ); ro.set( 2, 3 ); o->fillValue( val ); ro.set( 2, 3, val ); } break; }
    }
    check( *m, rm, a1, "matrix" ); check( *o, ro, a2, "second matrix" );
    c.state( vx::mix( rm.r * 8 + rm.k, a1 * 64 + (unsigned)d ) );
  }
}
template<typename T> static void vectorOps( Chooser & c, int depth )
{
  using V = efl::BasicVector<T>; std::vector<std::size_t> const aligns{ 0, 1, 2, 4, 16 };
  std::size_t const a1 = c.pick( aligns, "alignment" ), a2 = c.flag( "second alignment differs" ) ? ( a1 == 4 ? 2 : 4 ) : a1, n = c.pick( std::vector<std::size_t>{ 0, 1, 3, 7 }, "size" ); bool const sameAl = ( a1 ? a1 : 1 ) == ( a2 ? a2 : 1 );
  std::unique_ptr<V> v( c.flag( "empty" ) ? new V( a1 ) : new V( n, a1 ) ), o( new V( { T( 1 ), T( 2 ), T( 3 ) }, a2 ) ); std::vector<T> rv( v->size() ), ro{ T( 1 ), T( 2 ), T( 3 ) };
  if( vx::throws( [&] { V x( 1, 6 ); } ) == false ) c.fail( "alignment 6 accepted" );
  auto check = [&]( V const & x, std::vector<T> const & y, std::size_t a, char const * what ) { c.compared(); if( x.size() != y.size() || x.alignmentElements() != ( a ? a : 1 ) ) c.fail( what, ": size ", x.size(), " instead of ", y.size() ); if( !y.empty() && !alignedPtr( x.data(), a * sizeof( T ) ) ) c.fail( what, ": not aligned" );
    for( std::size_t i = 0; i < y.size(); ++i ) if( x[ i ] != y[ i ] || x.at( i ) != y[ i ] || x.data()[ i ] != y[ i ] ) c.fail( what, ": element ", i, " is ", x[ i ], " instead of ", y[ i ] ); if( !vx::throws( [&] { x.at( y.size() ); } ) ) c.fail( what, ": access beyond the end accepted" ); };
  check( *v, rv, a1, "new" ); check( *o, ro, a2, "initialiser list" );
  for( int d = 0; d < depth; ++d )
  {
    T const val = T( (float)( d + 1 ) * 1.5f );
    switch( c.choose( 9, "operation" ) )
    {
    case 0: { std::size_t const s = c.pick( std::vector<std::size_t>{ 0, 3, 5 }, "size" ); v->resize( s ); rv.assign( s, T( 0 ) ); break; }
    case 1: v->zeroFill(); std::fill( rv.begin(), rv.end(), T( 0 ) ); break;
    case 2: v->fillValue( val ); std::fill( rv.begin(), rv.end(), val ); break;
    case 3: if( !rv.empty() ) { ( *v )[ 0 ] = val; rv[ 0 ] = val; v->at( rv.size() - 1 ) = val + T( 1 ); rv.back() = val + T( 1 ); } break;
    case 4: { bool const fits = rv.size() == ro.size(); if( vx::throws( [&] { v->copy( *o ); } ) == fits ) c.fail( "copying ", ro.size(), " to ", rv.size(), " elements" ); if( fits ) rv = ro; break; }
    case 5: v->assign( *o ); rv = ro; break;
    case 6: { bool const fits = rv.size() == ro.size() && sameAl; if( vx::throws( [&] { v->swap( *o ); } ) == fits ) c.fail( "swapping vectors" ); if( fits ) std::swap( rv, ro ); break; }
    case 7: { V moved( std::move( *v ) ); check( moved, rv, a1, "move constructed" ); v.reset( new V( std::move( moved ) ) ); break; }
    case 8: { if( vx::throws( [&] { *v = std::move( *o ); } ) == sameAl ) c.fail( "move assignment of vectors" ); if( sameAl ) { rv = ro; o.reset( new V( 5, a2 ) ); ro.assign( 5, T( 0 ) ); } break; }
    }
    check( *v, rv, a1, "vector" ); check( *o, ro, a2, "second vector" ); c.state( vx::mix( rv.size(), a1 * 64 + (unsigned)d ) );
  }
}
// ---------------------------------------------------------------- parameter types
struct TypeCase { std::string name; std::function<void( Chooser & )> fn; };
// make(k): three distinguishable values; same(a,b); fixedShape: assignment requires equal dimensions (k=2 differs in shape)
template<typename P, typename Cfg> static void paramCase( Chooser & c, std::function<std::unique_ptr<P>( int )> make, std::function<bool( P const &, P const & )> same, Cfg const & cfg, std::function<bool( P const & )> isDefault, bool fixedShape = false )
{
  int const i = c.choose( 3, "value" ), j = c.choose( 3, "other value" ); auto a = make( i ), b = make( j ); auto const a0 = make( i ), b0 = make( j ); c.compared();
  if( same( *a, *b ) != ( i == j ) ) c.fail( "values do not compare as expected" );
  if( a->type() != P::staticType() ) c.fail( "dynamic and static type differ" );
  // clone and copy are equal and independent
  auto cl = a->clone(); P * clp = dynamic_cast<P *>( cl.get() ); if( !clp || !same( *clp, *a ) ) c.fail( "the clone differs from the original" );
  P copy( *a ); if( !same( copy, *a ) ) c.fail( "the copy differs from the original" );
  bool const fits = !fixedShape || ( i == 2 ) == ( j == 2 );
  auto base = [&]( P & x, ParameterBase const & y ) { static_cast<ParameterBase &>( x ).assign( y ); };
  if( vx::throws( [&] { base( *clp, *b ); } ) == fits ) c.fail( fits ? "assignment failed" : "assignment of a value of different dimensions accepted" );
  if( !same( *clp, fits ? *b0 : *a0 ) ) c.fail( "wrong value after assignment" );
  if( fits ) { copy = *b; if( !same( copy, *b0 ) ) c.fail( "wrong value after operator=" ); }
  if( !same( *a, *a0 ) || !same( *b, *b0 ) ) c.fail( "an assignment to a copy changed the original" );
  a.reset(); if( !same( *clp, fits ? *b0 : *a0 ) ) c.fail( "the clone depends on its original" );
  // assignment from another parameter type
  pml::StringParameter str( std::string( "x" ) ); pml::ScalarParameter<int> num( 3 );
  ParameterBase & wrong = std::is_same<P, pml::StringParameter>::value ? static_cast<ParameterBase &>( num ) : static_cast<ParameterBase &>( str );
  if( !vx::throws( [&] { base( *b, wrong ); } ) || !same( *b, *b0 ) ) c.fail( "assignment from a different parameter type" );
  // factory
  if( !ParameterFactory::typeExists( P::staticType() ) ) c.fail( "type is not registered" );
  auto f = ParameterFactory::create( P::staticType(), cfg ); P * fp = dynamic_cast<P *>( f.get() );
  if( !fp || f->type() != P::staticType() || !isDefault( *fp ) ) c.fail( "the factory created a wrong object" );
  struct OtherConfig : ParameterConfigBase { std::unique_ptr<ParameterConfigBase> clone() const override { return std::unique_ptr<ParameterConfigBase>( new OtherConfig ); } bool compare( ParameterConfigBase const & ) const override { return false; } } other;
  if( !std::is_same<Cfg, pml::EmptyParameterConfig>::value && !vx::throws( [&] { ParameterFactory::create( P::staticType(), other ); } ) ) c.fail( "the factory accepted a configuration of a different type" );
  c.state( (uint64_t)P::staticType() + (unsigned)( i * 3 + j ) );
}
template<typename T> static void matCase( Chooser & c )
{
  using P = pml::MatrixParameter<T>;
  paramCase<P>( c, []( int k ) { std::unique_ptr<P> p( new P( 2, k == 2 ? 4 : 3, 4 ) ); for( std::size_t i = 0; i < 2; ++i ) for( std::size_t j = 0; j < p->numberOfColumns(); ++j ) ( *p )( i, j ) = T( (float)( 10 * k ) + (float)( 3 * i + j ) ); return p; },
    []( P const & a, P const & b ) { if( a.numberOfRows() != b.numberOfRows() || a.numberOfColumns() != b.numberOfColumns() || a.alignmentElements() != b.alignmentElements() ) return false; for( std::size_t i = 0; i < a.numberOfRows(); ++i ) for( std::size_t j = 0; j < a.numberOfColumns(); ++j ) if( a( i, j ) != b( i, j ) ) return false; return true; },
    pml::MatrixParameterConfig( 3, 5 ), []( P const & p ) { bool z = p.numberOfRows() == 3 && p.numberOfColumns() == 5 && p.alignmentElements() == cVectorAlignmentSamples; for( std::size_t i = 0; z && i < 15; ++i ) z = p( i / 5, i % 5 ) == T( 0 ); return z; }, true );
}
template<typename T> static void vecCase( Chooser & c )
{
  using P = pml::VectorParameter<T>;
  paramCase<P>( c, []( int k ) { std::unique_ptr<P> p( new P( k == 2 ? 4 : 3, 4 ) ); for( std::size_t j = 0; j < p->size(); ++j ) ( *p )[ j ] = T( (float)( 10 * k ) + (float)j ); return p; },
    []( P const & a, P const & b ) { return a.size() == b.size() && a.alignmentElements() == b.alignmentElements() && std::equal( a.data(), a.data() + a.size(), b.data() ); },
    pml::VectorParameterConfig( 5 ), []( P const & p ) { return p.size() == 5 && p.alignmentElements() == cVectorAlignmentSamples && std::all_of( p.data(), p.data() + 5, []( T x ) { return x == T( 0 ); } ); }, true );
}
template<typename T> static void scalarCase( Chooser & c, std::vector<T> const & vals )
{
  using P = pml::ScalarParameter<T>;
  paramCase<P>( c, [&]( int k ) { return std::unique_ptr<P>( new P( vals[ (std::size_t)k ] ) ); }, []( P const & a, P const & b ) { return a.value() == b.value(); }, pml::EmptyParameterConfig(), []( P const & p ) { return p.value() == T(); } );
}
template<typename V> static void indexedCase( Chooser & c, std::vector<V> const & vals )
{
  using P = pml::IndexedValueParameter<std::size_t, V>;
  paramCase<P>( c, [&]( int k ) { std::unique_ptr<P> p( new P( 0, V() ) ); p->setIndex( (std::size_t)( 3 - k ) ); p->setValue( vals[ (std::size_t)k ] ); return p; }, []( P const & a, P const & b ) { return a.index() == b.index() && a.value() == b.value(); }, pml::EmptyParameterConfig(), []( P const & p ) { return p.index() == 0 && p.value().empty(); } );
}
template<typename T> static void tfCase( Chooser & c )
{
  using P = pml::TimeFrequencyParameter<T>; using Cx = std::complex<T>;
  paramCase<P>( c, []( int k ) { std::unique_ptr<P> p( k == 0 ? new P( (std::size_t)2 ) : new P( 3, 2, (std::size_t)k, 2 ) ); for( std::size_t f = 0; f < p->numberOfFrames(); ++f ) for( std::size_t ch = 0; ch < p->numberOfChannels(); ++ch ) for( std::size_t b = 0; b < p->numberOfDftBins(); ++b ) p->at( f, ch, b ) = Cx( (T)( f * 100 + ch * 10 + b ), (T)-k ); return p; },
    []( P const & a, P const & b ) { if( a.numberOfFrames() != b.numberOfFrames() || a.numberOfChannels() != b.numberOfChannels() || a.numberOfDftBins() != b.numberOfDftBins() ) return false; for( std::size_t f = 0; f < a.numberOfFrames(); ++f ) for( std::size_t ch = 0; ch < a.numberOfChannels(); ++ch ) for( std::size_t i = 0; i < a.numberOfDftBins(); ++i ) if( a.at( f, ch, i ) != b.at( f, ch, i ) || &a.at( f, ch, i ) != a.channelSlice( f, ch ) + i || &a.at( f, ch, i ) != a.frameSlice( f ) + ch * a.channelStride() + i || &a.at( f, ch, i ) != a.data() + f * a.frameStride() + ch * a.channelStride() + i ) return false; return true; },
    pml::TimeFrequencyParameterConfig( 5, 2, 3 ), []( P const & p ) { bool z = p.numberOfDftBins() == 5 && p.numberOfChannels() == 2 && p.numberOfFrames() == 3; for( std::size_t i = 0; z && i < 30; ++i ) z = p.at( i / 10, ( i / 5 ) % 2, i % 5 ) == Cx( 0 ); return z; } );
}
static void filterRoutingCase( Chooser & c )
{
  using P = pml::FilterRoutingParameter;
  paramCase<P>( c, []( int k ) { auto const n = (std::size_t)k; return std::unique_ptr<P>( new P( n, n + 1, 2 * n, 0.5f * (float)k ) ); }, []( P const & a, P const & b ) { return a.inputIndex == b.inputIndex && a.outputIndex == b.outputIndex && a.filterIndex == b.filterIndex && a.gainLinear == b.gainLinear; }, pml::EmptyParameterConfig(), []( P const & ) { return true; } );
}
static void filterRoutingListCase( Chooser & c )
{
  using P = pml::FilterRoutingListParameter;
  paramCase<P>( c, []( int k ) { std::unique_ptr<P> p( new P ); for( std::size_t i = 0; i < (std::size_t)k; ++i ) p->addRouting( i, 3 - i, 7, 0.25f * (float)( i + 1 ) ); return p; }, []( P const & a, P const & b ) { return a.size() == b.size() && std::equal( a.begin(), a.end(), b.begin(), []( rbbl::FilterRouting const & x, rbbl::FilterRouting const & y ) { return x.inputIndex == y.inputIndex && x.outputIndex == y.outputIndex && x.filterIndex == y.filterIndex && x.gainLinear == y.gainLinear; } ); }, pml::EmptyParameterConfig(), []( P const & p ) { return p.size() == 0; } );
}
static void sparseListCase( Chooser & c )
{
  using P = pml::SparseGainRoutingListParameter;
  paramCase<P>( c, []( int k ) { std::unique_ptr<P> p( new P ); for( std::size_t i = 0; i < (std::size_t)k; ++i ) p->addRouting( i, 3 - i, 7, 0.25f * (float)( i + 1 ) ); return p; }, []( P const & a, P const & b ) { return a.size() == b.size() && std::equal( a.begin(), a.end(), b.begin(), []( rbbl::SparseGainRouting const & x, rbbl::SparseGainRouting const & y ) { return x.entryIndex == y.entryIndex && x.rowIndex == y.rowIndex && x.columnIndex == y.columnIndex && x.gain == y.gain; } ); }, pml::EmptyParameterConfig(), []( P const & p ) { return p.size() == 0; } );
}
static void sparseCase( Chooser & c )
{
  using P = pml::SparseGainRoutingParameter;
  paramCase<P>( c, []( int k ) { auto const n = (std::size_t)k; return std::unique_ptr<P>( new P( n, n + 1, 2 * n, 0.5f * (float)k ) ); }, []( P const & a, P const & b ) { return a.entryIndex == b.entryIndex && a.rowIndex == b.rowIndex && a.columnIndex == b.columnIndex && a.gain == b.gain; }, pml::EmptyParameterConfig(), []( P const & ) { return true; } );
}
static void routingCase( Chooser & c )
{
  using P = pml::SignalRoutingParameter;
  paramCase<P>( c, []( int k ) { std::unique_ptr<P> p( new P ); for( std::size_t i = 0; i < (std::size_t)k; ++i ) p->addRouting( 5 - i, i ); return p; }, []( P const & a, P const & b ) { return a.size() == b.size() && std::equal( a.begin(), a.end(), b.begin(), []( P::Entry const & x, P::Entry const & y ) { return x.input == y.input && x.output == y.output; } ); }, pml::EmptyParameterConfig(), []( P const & p ) { return p.size() == 0; } );
}
static void interpolationCase( Chooser & c )
{
  using P = pml::InterpolationParameter;
  paramCase<P>( c, []( int k ) { std::unique_ptr<P> p( new P( (std::size_t)k, 2 ) ); p->setIndices( { (std::size_t)k, 7 } ); p->setWeights( { 0.5f * (float)k, -1.f } ); return p; }, []( P const & a, P const & b ) { return a.id() == b.id() && a.indices() == b.indices() && a.weights() == b.weights(); }, pml::InterpolationParameterConfig( 3 ), []( P const & p ) { return p.numberOfInterpolants() == 3 && p.id() == P::cInvalidId && p.weight( 2 ) == 0.f; } );
  P p( 1, 2 ); if( !vx::throws( [&] { p.setIndices( { 1 } ); } ) || !vx::throws( [&] { p.setWeights( { 1.f, 2.f, 3.f } ); } ) || !vx::throws( [&] { p.setIndex( 2, 0 ); } ) || !vx::throws( [&] { p.setWeight( 2, 0 ); } ) || !vx::throws( [&] { P q( 0, { 1, 2 }, { 1.f } ); } ) ) c.fail( "interpolation parameter accepted wrong dimensions" );
}
static void stringCase( Chooser & c )
{
  using P = pml::StringParameter; std::vector<std::string> const vals{ "", std::string( "a\0b", 3 ), "some longer text that is not stored inside the object itself" };
  paramCase<P>( c, [&]( int k ) { return std::unique_ptr<P>( new P( vals[ (std::size_t)k ] ) ); }, []( P const & a, P const & b ) { return a.size() == b.size() && std::string( a.str(), a.size() ) == std::string( b.str(), b.size() ); }, pml::EmptyParameterConfig(), []( P const & p ) { return p.size() == 0; } );
  for( auto const & v : vals ) { P p( (std::size_t)0 ); p = v; if( p.size() != v.size() || std::string( p.str(), p.size() ) != v || (bool)p.empty() != v.empty() ) c.fail( "string assignment" ); P q( (std::size_t)0 ); q.assign( v ); if( std::string( q.str(), q.size() ) != v ) c.fail( "string assign()" ); }
}
template<typename T> static void biquadCase( Chooser & c )
{
  using P = pml::BiquadParameterMatrix<T>;
  paramCase<P>( c, []( int k ) { std::unique_ptr<P> p( new P( 2, (std::size_t)( k + 1 ) ) ); ( *p )( 1, (std::size_t)k ).b0() = (T)( k + 2 ); return p; }, []( P const & a, P const & b ) { if( a.numberOfFilters() != b.numberOfFilters() || a.numberOfSections() != b.numberOfSections() ) return false; for( std::size_t i = 0; i < a.numberOfFilters(); ++i ) for( std::size_t j = 0; j < a.numberOfSections(); ++j ) if( !std::equal( a( i, j ).data(), a( i, j ).data() + 5, b( i, j ).data() ) ) return false; return true; }, pml::MatrixParameterConfig( 3, 4 ), []( P const & p ) { return p.numberOfFilters() == 3 && p.numberOfSections() == 4 && p( 2, 3 ).b0() == (T)1; } );
}
static void configs( Chooser & c )
{
  std::size_t const r = (std::size_t)c.choose( 3, "r" ), k = (std::size_t)c.choose( 3, "k" ), f = (std::size_t)c.choose( 3, "f" ), r2 = (std::size_t)c.choose( 3, "r2" ), k2 = (std::size_t)c.choose( 3, "k2" ), f2 = (std::size_t)c.choose( 3, "f2" ); c.compared();
  pml::MatrixParameterConfig m( r, k ), m2( r2, k2 ); pml::VectorParameterConfig v( r ), v2( r2 ); pml::TimeFrequencyParameterConfig t( r, k, f ), t2( r2, k2, f2 ); pml::EmptyParameterConfig e, e2;
  auto cmp = [&]( ParameterConfigBase const & a, ParameterConfigBase const & b, bool want ) { if( a.compare( b ) != want || a.clone()->compare( b ) != want || b.compare( *a.clone() ) != want ) c.fail( "comparison of configurations" ); };
  cmp( m, m2, r == r2 && k == k2 ); cmp( v, v2, r == r2 ); cmp( t, t2, r == r2 && k == k2 && f == f2 ); cmp( e, e2, true );
  ParameterConfigBase const * all[] = { &m, &v, &t, &e }; for( auto a : all ) for( auto b : all ) if( a != b && !vx::throws( [&] { a->compare( *b ); } ) ) c.fail( "comparison of configurations of different types" );
}
int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary();
  vx::Explorer x( argc, argv ); bool const q = x.quick();
  x.add( "matrix-text", [q]( Chooser & c ) { text<float>( c, q ? 5 : 6, false ); } ); x.add( "matrix-text-double", [q]( Chooser & c ) { text<double>( c, q ? 4 : 5, false ); } ); x.add( "matrix-text-complex", [q]( Chooser & c ) { text<cf>( c, q ? 4 : 5, false ); } ); x.add( "matrix-text-cdouble", []( Chooser & c ) { text<cd>( c, 3, false ); } );
  x.add( "vector-text", [q]( Chooser & c ) { text<float>( c, q ? 4 : 6, true ); } ); x.add( "vector-text-double", [q]( Chooser & c ) { text<double>( c, q ? 3 : 5, true ); } ); x.add( "vector-text-complex", []( Chooser & c ) { text<cf>( c, 4, true ); } ); x.add( "vector-text-cdouble", []( Chooser & c ) { text<cd>( c, 3, true ); } );
  x.add( "shapes", []( Chooser & c ) { shapes<float>( c ); } ); x.add( "shapes-double", []( Chooser & c ) { shapes<double>( c ); } ); x.add( "shapes-complex", []( Chooser & c ) { shapes<cf>( c ); } ); x.add( "shapes-cdouble", []( Chooser & c ) { shapes<cd>( c ); } );
  x.add( "matrix-ops", [q]( Chooser & c ) { matrixOps<float>( c, q ? 2 : 3 ); } ); x.add( "matrix-ops-cdouble", [q]( Chooser & c ) { matrixOps<cd>( c, q ? 1 : 2 ); } );
  x.add( "vector-ops", [q]( Chooser & c ) { vectorOps<float>( c, q ? 3 : 4 ); } ); x.add( "vector-ops-cdouble", [q]( Chooser & c ) { vectorOps<cd>( c, q ? 2 : 3 ); } );
  x.add( "types", []( Chooser & c ) {
    switch( c.choose( 26, "type" ) )
    {
    case 0: matCase<float>( c ); break; case 1: matCase<double>( c ); break; case 2: matCase<cf>( c ); break; case 3: matCase<cd>( c ); break;
    case 4: vecCase<float>( c ); break; case 5: vecCase<double>( c ); break; case 6: vecCase<cf>( c ); break; case 7: vecCase<cd>( c ); break;
    case 8: scalarCase<int>( c, { 0, -5, 7 } ); break; case 9: scalarCase<unsigned int>( c, { 0, 5, 7 } ); break; case 10: scalarCase<float>( c, { 0.f, 0.1f, -1e30f } ); break; case 11: scalarCase<double>( c, { 0., 0.1, -1e300 } ); break; case 12: scalarCase<cf>( c, { cf( 0, 1 ), cf( 1, 0 ), cf( 2, 2 ) } ); break; case 13: scalarCase<cd>( c, { cd( 0, 1 ), cd( 1, 0 ), cd( 2, 2 ) } ); break;
    case 14: indexedCase<std::vector<float>>( c, { {}, { 1.f }, { 1.f, 2.f } } ); break; case 15: indexedCase<std::vector<double>>( c, { {}, { 1. }, { 1., 2. } } ); break; case 16: indexedCase<std::string>( c, { "", "a", "bc" } ); break;
    case 17: tfCase<float>( c ); break; case 18: tfCase<double>( c ); break;
    case 19: filterRoutingListCase( c ); break; case 20: sparseListCase( c ); break; case 21: routingCase( c ); break; case 22: interpolationCase( c ); break; case 23: stringCase( c ); break; case 24: biquadCase<float>( c ); filterRoutingCase( c ); break; case 25: biquadCase<double>( c ); sparseCase( c ); break;
    } }, 2 );
  x.add( "configs", []( Chooser & c ) { configs( c ); } );
  return x.run();
}
