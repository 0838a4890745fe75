//! LIBS: app_matrix_convolver apputilities pml objectmodel rbbl visr efl kissfft ffts
//! LINK: -lboost_program_options -lboost_filesystem -lboost_thread -lboost_system -lsndfile
// Filter sets and options of the applications: all bounded combinations of filter files, offsets and limits through apps/matrix_convolver's initFilterMatrix(), and all bounded command
// lines and option files through apputilities::Options.
#include "explore.hpp"
#include <apps/matrix_convolver/init_filter_matrix.hpp>
#include <apps/matrix_convolver/options.hpp>
#include <libapputilities/options.hpp>
#include <libefl/basic_matrix.hpp>
#include <librbbl/index_sequence.hpp>
#include <sndfile.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
using namespace visr; using namespace vx;
static std::size_t const NONE = std::numeric_limits<std::size_t>::max();
// A scratch directory, removed at the end.
struct Scratch
{
  std::string dir; std::vector<std::string> files; Scratch() { char t[] = "/tmp/visr_c31_XXXXXX"; if( !::mkdtemp( t ) ) std::abort(); dir = t; }
  ~Scratch() { for( auto const & f : files ) ::unlink( f.c_str() ); ::rmdir( dir.c_str() ); }
  std::string path( std::string const & n ) { std::string const p = dir + "/" + n; if( std::find( files.begin(), files.end(), p ) == files.end() ) files.push_back( p ); return p; }
};
static Scratch & scratch() { static Scratch s; return s; }
// --- Filters
struct File { char const * name; std::size_t channels, length; };
static File const FILES[] = { { "mono.wav", 1, 5 }, { "stereo.wav", 2, 3 }, { "three.wav", 3, 9 }, { "with blank.wav", 1, 1 } };
static float tap( std::size_t file, std::size_t ch, std::size_t i ) { return ( i % 2 ? -1.f : 1.f ) * (float)( 1 + file * 64 + ch * 16 + i ) / 1024.f; }
static std::string file( std::size_t k )
{
  std::string const p = scratch().path( FILES[ k ].name ); if( std::ifstream( p ).good() ) return p; SF_INFO info{}; info.channels = (int)FILES[ k ].channels; info.samplerate = 48000; info.format = SF_FORMAT_WAV | SF_FORMAT_FLOAT;
  SNDFILE * f = sf_open( p.c_str(), SFM_WRITE, &info ); if( !f ) std::abort(); std::vector<float> v; for( std::size_t i = 0; i < FILES[ k ].length; ++i ) for( std::size_t c = 0; c < FILES[ k ].channels; ++c ) v.push_back( tap( k, c, i ) ); sf_writef_float( f, v.data(), (sf_count_t)FILES[ k ].length ); sf_close( f ); return p;
}
template<typename T> static void filters( Chooser & c, int maxFiles, std::vector<std::size_t> const & starts )
{
  int const n = c.choose( maxFiles + 1, "files" ); std::vector<std::size_t> which; for( int i = 0; i < n; ++i ) which.push_back( (std::size_t)c.choose( 4, "file" ) );
  int const offsetKind = c.choose( 3, "offsets" ); std::vector<std::size_t> offset; std::string text; // none, as many as files, one too many
  if( offsetKind ) for( int i = 0; i < n + ( offsetKind == 2 ); ++i ) { offset.push_back( c.pick( starts, "offset" ) ); if( offsetKind == 2 ) offset.back() = (std::size_t)( 4 * i ); text += ( text.empty() ? "" : "," ) + std::to_string( offset.back() ); }
  std::size_t const maxLength = c.pick( std::vector<std::size_t>{ NONE, 4, 5, 12 }, "maximum length" ), maxFilters = c.pick( std::vector<std::size_t>{ NONE, 3, 5, 12 }, "maximum filters" ), alignment = c.pick( std::vector<std::size_t>{ 0, 16 }, "alignment" );
  int const style = n ? c.choose( 4, "style" ) : 0; std::string list; for( int i = 0; i < n; ++i ) { std::string const p = file( which[ (std::size_t)i ] ); if( i ) list += ","; list += style == 0 ? p : style == 1 ? " " + p + "  " : style == 2 ? "\"" + p + "\"" : " \" " + p + "\" "; }
  bool ok = offset.empty() || offset.size() == (std::size_t)n; if( n == 0 ) ok = ok && maxLength != NONE && maxFilters != NONE; std::size_t end = 0, length = 0; std::vector<std::size_t> start( (std::size_t)n ); std::map<std::size_t, std::pair<std::size_t, std::size_t>> slots;
  if( ok && n ) { std::size_t next = 0; for( std::size_t i = 0; i < (std::size_t)n; ++i ) { File const & f = FILES[ which[ i ] ]; start[ i ] = offset.empty() ? next : offset[ i ]; next = start[ i ] + f.channels; end = std::max( end, next ); length = std::max( length, f.length ); for( std::size_t k = 0; k < f.channels; ++k ) if( !slots.emplace( start[ i ] + k, std::make_pair( which[ i ], k ) ).second ) ok = false; } if( maxLength != NONE && length > maxLength ) ok = false; if( maxFilters != NONE && end > maxFilters ) ok = false; }
  c.note( "files '", list, "' offsets '", text, "' limits ", (long)maxLength, " ", (long)maxFilters ); efl::BasicMatrix<T> m( alignment ); if( style == 1 ) { m.resize( 2, 30 ); m.fillValue( T( 7 ) ); }
  bool const failed = throws( [&] { apps::matrix_convolver::initFilterMatrix( list, maxLength, maxFilters, rbbl::IndexSequence( text ), m ); } ); c.compared();
  if( failed == ok ) c.fail( "the filters were ", failed ? "rejected" : "accepted" ); if( failed ) return;
  std::size_t const rows = maxFilters != NONE ? maxFilters : end, cols = maxLength != NONE ? maxLength : length; if( m.numberOfRows() != rows || m.numberOfColumns() != cols ) c.fail( "the filter matrix has size ", m.numberOfRows(), "x", m.numberOfColumns(), " instead of ", rows, "x", cols );
  for( std::size_t r = 0; r < rows; ++r ) for( std::size_t i = 0; i < cols; ++i ) { auto const s = slots.find( r ); T const e = s != slots.end() && i < FILES[ s->second.first ].length ? (T)tap( s->second.first, s->second.second, i ) : T( 0 ); if( m( r, i ) != e ) c.fail( "tap ", i, " of filter ", r, " is ", m( r, i ), " instead of ", e ); }
  c.compared( rows * cols ); c.state( mix( rows * 64 + cols, slots.size() ) );
}
static void badLists( Chooser & c )
{
  std::string const good = file( 0 ), list = c.pick( std::vector<std::string>{ "nonexisting.wav", good + ",", "," + good, good + ",nonexisting.wav", good + ",," + file( 1 ), " ", scratch().dir, good + ";" + good }, "list" ); c.note( list );
  efl::BasicMatrix<float> m( 4 ); if( !throws( [&] { apps::matrix_convolver::initFilterMatrix( list, 12, 12, rbbl::IndexSequence(), m ); } ) ) c.fail( "accepted" ); c.compared();
}
// --- Options
struct Opts : public apputilities::Options { Opts() { registerOption<std::size_t>( "size,s", "size" ); registerOption<std::string>( "name,n", "name" ); registerOption<bool>( "flag,f", "flag" ); registerOption<double>( "level", "level" ); } };
struct Form { std::vector<std::string> tokens; char const * option; std::string value; }; // option "" = faulty, '!' = faulty value
static std::vector<Form> const & forms()
{
  static std::vector<Form> const v{ { { "--size=4" }, "size", "4" }, { { "--size", "7" }, "size", "7" }, { { "-s5" }, "size", "5" }, { { "-s", "6" }, "size", "6" }, { { "--name=a b" }, "name", "a b" }, { { "-n", "x,y" }, "name", "x,y" }, { { "--name", "[{\"a\":\"b\"}]" }, "name", "[{\"a\":\"b\"}]" }, { { "--flag" }, "flag", "1" }, { { "-f" }, "flag", "1" }, { { "--level=-2.5" }, "level", "-2.5" },
    { { "--help" }, "help", "1" }, { { "-v" }, "version", "1" }, { { "--bogus" }, "", "" }, { { "--bogus=3" }, "", "" }, { { "-q" }, "", "" }, { { "--size=x" }, "!size", "" }, { { "--level=" }, "!level", "" }, { { "--size=3.5" }, "!size", "" } };
  return v;
}
using Values = std::map<std::string, std::string>;
static void checkOptions( Chooser & c, std::vector<std::string> const & args, Values const & e, bool ok )
{
  std::vector<char const *> argv{ "program" }; for( auto const & a : args ) argv.push_back( a.c_str() ); Opts o; std::ostringstream err; using R = apputilities::Options::ParseResult; R r = R::Success; c.compared( 5 );
  std::string what; try { r = o.parse( (int)argv.size(), argv.data(), err ); } catch( std::exception const & ex ) { what = ex.what(); c.fail( "parsing raised an exception: ", what ); }
  for( auto const & x : e ) if( x.second == "!" ) ok = false;
  if( !ok ) { if( r != R::Failure ) c.fail( "faulty options accepted" ); if( err.str().empty() ) c.fail( "faulty options rejected without a message" ); return; }
  R const expected = e.count( "help" ) ? R::Help : e.count( "version" ) ? R::Version : R::Success; if( r != expected ) c.fail( "result ", (int)r, " instead of ", (int)expected, ": ", err.str() );
  auto text = [&]( char const * n ) { auto i = e.find( n ); return i == e.end() ? std::string( "-" ) : i->second; };
  if( o.hasOption( "size" ) != !!e.count( "size" ) || o.getDefaultedOption<std::size_t>( "size", 99 ) != ( e.count( "size" ) ? (std::size_t)std::stoul( text( "size" ) ) : 99 ) ) c.fail( "size is ", o.getDefaultedOption<std::size_t>( "size", 99 ), " instead of ", text( "size" ) );
  if( o.hasOption( "name" ) != !!e.count( "name" ) || o.getDefaultedOption<std::string>( "name", "-" ) != text( "name" ) ) c.fail( "name is '", o.getDefaultedOption<std::string>( "name", "-" ), "' instead of '", text( "name" ), "'" );
  if( o.getOption<bool>( "flag" ) != !!e.count( "flag" ) || o.getDefaultedOption<bool>( "flag", true ) != !!e.count( "flag" ) ) c.fail( "wrong flag" );
  if( o.getDefaultedOption<double>( "level", 99. ) != ( e.count( "level" ) ? std::stod( text( "level" ) ) : 99. ) ) c.fail( "wrong level" );
  if( !e.count( "size" ) && !throws( [&] { o.getOption<std::size_t>( "size" ); } ) ) c.fail( "a missing option has a value" ); if( !throws( [&] { o.getDefaultedOption<int>( e.count( "size" ) ? "size" : "flag", 1 ); } ) ) c.fail( "an option was returned as a wrong type" );
  std::string s; for( auto const & x : e ) s += x.first + "=" + x.second + ";"; c.state( s );
}
// Adds one option to the given arguments. Every option may be given once.
static void add( Chooser & c, std::vector<std::string> & args, Values & e, bool & ok )
{
  Form const & f = forms()[ (std::size_t)c.choose( (int)forms().size(), "option" ) ]; args.insert( args.end(), f.tokens.begin(), f.tokens.end() ); if( !*f.option ) ok = false; else if( !e.emplace( f.option + ( *f.option == '!' ), *f.option == '!' ? "!" : f.value ).second ) e[ f.option + ( *f.option == '!' ) ] = "!";
}
static void commandLine( Chooser & c, int depth )
{
  std::vector<std::string> args; Values e; bool ok = true; int const n = c.choose( depth + 1, "options" ); for( int i = 0; i < n; ++i ) add( c, args, e, ok );
  for( auto const & a : args ) c.note( a ); checkOptions( c, args, e, ok );
}
// Options in a file, given before, between or after options on the command line, which take precedence.
static void optionFile( Chooser & c, int inFile, int onLine )
{
  std::vector<std::string> args, fileArgs; Values e, fe; bool ok = true; int const n = c.choose( inFile + 1, "options in the file" ); for( int i = 0; i < n; ++i ) add( c, fileArgs, fe, ok );
  int const m = c.choose( onLine + 1, "options" ), at = c.choose( m + 1, "position" ), way = c.choose( 4, "way" ); std::string name = scratch().path( "options" ); if( way == 3 ) { name += "missing"; ok = false; }
  for( int i = 0; i <= m; ++i ) { if( i == at ) { if( way == 0 ) { args.push_back( "--option-file" ); args.push_back( name ); } else args.push_back( ( way == 1 ? "--option-file=" : "@" ) + name ); } if( i < m ) add( c, args, e, ok ); }
  int const style = c.choose( 3, "separators" ); std::ofstream o( name == scratch().path( "options" ) ? name : scratch().path( "other" ), std::ios::trunc ); std::string text;
  for( std::size_t i = 0; i < fileArgs.size(); ++i ) { if( i ) text += style == 0 ? "\n" : style == 1 || fileArgs[ i ][ 0 ] != '-' ? " " : "\r\n"; std::string a = fileArgs[ i ]; auto const eq = a[ 0 ] == '-' ? a.find( '=' ) : std::string::npos; std::string head = eq == std::string::npos ? "" : a.substr( 0, eq + 1 ), tail = eq == std::string::npos ? a : a.substr( eq + 1 ); if( tail.find_first_of( " ,[\"" ) != std::string::npos ) { std::string q; for( char ch : tail ) { if( ch == '"' ) q += '\\'; q += ch; } tail = "\"" + q + "\""; } text += head + tail; }
  if( style != 1 && !text.empty() ) text += "\n"; o << text; o.close(); c.note( "file: ", text ); for( auto const & a : args ) c.note( a );
  for( auto const & f : fe ) e.insert( f ); // a value in the file is evaluated only if there is none on the command line
  checkOptions( c, args, e, ok );
}
static void badFiles( Chooser & c )
{
  std::string const text = c.pick( std::vector<std::string>{ "\\x", "--size=4 --name=\\q", "--size=4\n--size=5", "--size", "--bogus" }, "text" ), name = scratch().path( "options" ); { std::ofstream o( name, std::ios::trunc ); o << text; } checkOptions( c, { "@" + name }, Values{}, false );
}
// The options of the application itself are accepted.
static void application( Chooser & c )
{
  std::vector<std::string> const sizes{ "sampling-frequency", "period", "input-channels", "output-channels", "max-filter-length", "max-routings", "max-filters" }, strings{ "audio-backend", "audio-ifc-options", "audio-ifc-option-file", "filters", "filter-file-index-offsets", "routings", "fft-library" }; std::vector<std::string> args{ "program" };
  std::size_t const a = (std::size_t)c.choose( (int)sizes.size(), "first" ), b = (std::size_t)c.choose( (int)strings.size(), "second" ); args.push_back( "--" + sizes[ a ] + "=12" ); args.push_back( "--" + strings[ b ] + "=some text" ); std::vector<char const *> argv; for( auto const & x : args ) argv.push_back( x.c_str() );
  apps::matrix_convolver::Options o; std::ostringstream err; if( o.parse( (int)argv.size(), argv.data(), err ) != apputilities::Options::ParseResult::Success ) c.fail( "rejected: ", err.str() );
  for( auto const & s : sizes ) if( o.getDefaultedOption<std::size_t>( s.c_str(), 3 ) != ( s == sizes[ a ] ? 12u : 3u ) ) c.fail( "wrong value of ", s ); for( auto const & s : strings ) if( o.getDefaultedOption<std::string>( s.c_str(), "-" ) != ( s == strings[ b ] ? "some text" : "-" ) ) c.fail( "wrong value of ", s ); c.compared( 14 );
}
int main( int argc, char ** argv )
{
  scratch(); Explorer x( argc, argv ); bool const q = x.quick(); std::vector<std::size_t> const s3{ 0, 1, 4 }, s5{ 0, 1, 2, 3, 6 };
  x.add( "filters", [=]( Chooser & c ) { filters<float>( c, 2, s5 ); }, 3 );
  x.add( "three filter files", [=]( Chooser & c ) { filters<float>( c, 3, q ? s3 : s5 ); }, 4 );
  x.add( "filters, double precision", [=]( Chooser & c ) { filters<double>( c, 1, s3 ); }, 2 );
  x.add( "faulty filter lists", []( Chooser & c ) { badLists( c ); }, 1 );
  x.add( "command lines", [q]( Chooser & c ) { commandLine( c, q ? 3 : 4 ); }, 3 );
  x.add( "option files", [q]( Chooser & c ) { optionFile( c, 2, q ? 1 : 2 ); }, 3 );
  x.add( "faulty option files", []( Chooser & c ) { badFiles( c ); }, 1 );
  x.add( "application", []( Chooser & c ) { application( c ); }, 1 );
  return x.run();
}
