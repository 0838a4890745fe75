// Bounded exhaustive explorer: enumerates every sequence of choices a scenario can make (stateless
// depth-first search over the choice tree, real code re-executed on every path).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback( void ( *callback )( void ) ) __attribute__( ( weak ) );

namespace vx
{
struct Violation { std::string msg; };
struct Known { std::string key; };
struct Skip {};

inline uint64_t mix( uint64_t h, uint64_t v )
{
  h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 );
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hashStr( std::string const & s, uint64_t h = 1469598103934665603ull )
{
  for( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; }
  return h;
}

class Explorer;
class Chooser
{
public:
  // Pick one of n alternatives; every alternative is eventually taken.
  int choose( int n, char const * what = "" );
  template<class T> T const & pick( std::vector<T> const & v, char const * what = "" ) { return v[ choose( (int)v.size(), what ) ]; }
  bool flag( char const * what = "" ) { return choose( 2, what ) == 1; }
  bool verbose() const { return mVerbose; }
  template<class... A> void note( A const &... a )
  {
    if( !mVerbose ) return;
    std::ostringstream s; s.precision( 9 );
    int dummy[] = { 0, ( ( s << a ), 0 )... }; (void)dummy;
    mTrace.push_back( s.str() );
  }
  // Register an (abstract) state that was reached; counts distinct states.
  void state( uint64_t h );
  void state( std::string const & s ) { state( hashStr( s ) ); }
  void step( uint64_t n = 1 ) { mSteps += n; }
  // A comparison of implementation against model that was made on this path.
  void compared( uint64_t n = 1 ) { mCompared += n; }
  template<class... A> [[noreturn]] void fail( A const &... a )
  {
    std::ostringstream s; s.precision( 9 );
    int dummy[] = { 0, ( ( s << a ), 0 )... }; (void)dummy;
    throw Violation{ s.str() };
  }
  // A failure with a stable key: reported as KNOWN-FINDING if (and only if) the key is listed.
  template<class... A> void failKeyed( std::string const & key, A const &... a );
private:
  friend class Explorer;
  Explorer * mX = nullptr;
  std::vector<int> mForced;      // choices to replay
  std::vector<std::pair<int,int>> mTaken; // (choice, arity)
  bool mVerbose = false;
  bool mSharding = true;
  std::vector<std::string> mTrace;
  uint64_t mSteps = 0, mCompared = 0;
};

struct Scenario
{
  std::string name;
  std::function<void( Chooser & )> fn;
  int shardDepth = 3;
};

// ---- crash record -------------------------------------------------------------------------------
struct CrashState
{
  char path[ 512 ];
  char scenario[ 128 ];
  int choices[ 4096 ];
  volatile int n = 0;
  volatile uint64_t beat = 0;
  char what[ 256 ];
};
inline CrashState & crash() { static CrashState s; return s; }
inline void writeCrash( char const * kind )
{
  static volatile int done = 0;
  if( done ) return;
  done = 1;
  CrashState & c = crash();
  int fd = open( c.path, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
  if( fd < 0 ) return;
  char buf[ 64 ];
  auto put = [&]( char const * s ) { ssize_t r = write( fd, s, strlen( s ) ); (void)r; };
  put( kind ); put( "\n" ); put( c.scenario ); put( "\n" );
  for( int i = 0; i < c.n && i < 4096; ++i ) { snprintf( buf, sizeof buf, "%s%d", i ? " " : "", c.choices[ i ] ); put( buf ); }
  put( "\n" ); put( c.what ); put( "\n" );
  close( fd );
}
inline void onDeath() { writeCrash( "CRASH" ); }
inline void onSignal( int sig )
{
  writeCrash( sig == SIGABRT ? "ABORT" : "SIGNAL" );
  _exit( 87 );
}
inline void onAlarm( int )
{
  static uint64_t last = ~0ull; static int stuck = 0;
  if( crash().beat == last ) { if( ++stuck >= 12 ) { writeCrash( "HANG" ); _exit( 88 ); } }
  else { stuck = 0; last = crash().beat; }
}
inline std::string jstr( std::string const & s )
{
  std::string o = "\"";
  for( unsigned char ch : s )
  {
    if( ch == '"' || ch == '\\' ) { o += '\\'; o += ch; }
    else if( ch < 0x20 || ch >= 0x7f ) { char b[ 8 ]; snprintf( b, sizeof b, "\\u%04x", ch ); o += b; }
    else o += ch;
  }
  return o + "\"";
}

class Explorer
{
public:
  std::string tier = "quick", out, replayScenario;
  int shard = 0, nShards = 1;
  double budget = 1e9;
  std::set<std::string> knownKeys;
  std::map<std::string, std::string> knownHit;
  bool quick() const { return tier == "quick"; }

  Explorer( int argc, char ** argv )
  {
    std::vector<int> rc;
    for( int i = 1; i < argc; ++i )
    {
      std::string a = argv[ i ];
      auto next = [&]() { return std::string( argv[ ++i ] ); };
      if( a == "--tier" ) tier = next();
      else if( a == "--out" ) out = next();
      else if( a == "--shard" ) { shard = std::stoi( next() ); nShards = std::stoi( next() ); }
      else if( a == "--budget" ) budget = std::stod( next() );
      else if( a == "--known" ) { std::ifstream f( next() ); std::string l; while( std::getline( f, l ) ) if( !l.empty() ) knownKeys.insert( l ); }
      else if( a == "--only" ) only = next();
      else if( a == "--replay" ) { replayScenario = next(); replay = true; std::istringstream s( next() ); int v; while( s >> v ) replayChoices.push_back( v ); }
      else if( a == "--no-hang" ) noHang = true;
    }
    snprintf( crash().path, sizeof crash().path, "%s.crash", out.c_str() );
    crash().what[ 0 ] = 0;
    struct sigaction sa; memset( &sa, 0, sizeof sa );
    sa.sa_handler = onSignal;
    sigaction( SIGABRT, &sa, nullptr );
    if( !&__sanitizer_set_death_callback )
    {
      struct rlimit lim; lim.rlim_cur = lim.rlim_max = (rlim_t)3500 << 20; setrlimit( RLIMIT_AS, &lim );
      sigaction( SIGSEGV, &sa, nullptr ); sigaction( SIGFPE, &sa, nullptr ); sigaction( SIGBUS, &sa, nullptr ); sigaction( SIGILL, &sa, nullptr );
    }
    else
    {
      sigaction( SIGFPE, &sa, nullptr ); sigaction( SIGILL, &sa, nullptr );
      __sanitizer_set_death_callback( onDeath );
    }
    sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART;
    sigaction( SIGALRM, &sa, nullptr );
    struct itimerval it; it.it_interval.tv_sec = 10; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    if( !noHang ) setitimer( ITIMER_REAL, &it, nullptr );
    t0 = now();
  }
  static double now() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + 1e-9 * t.tv_nsec; }

  void add( std::string name, std::function<void( Chooser & )> fn, int shardDepth = 3 ) { scenarios.push_back( Scenario{ name, fn, shardDepth } ); }

  int run()
  {
    if( replay )
    {
      for( auto & s : scenarios ) if( s.name == replayScenario )
      {
        Chooser c; c.mX = this; c.mForced = replayChoices; c.mVerbose = true; c.mSharding = false;
        std::string msg; int rc = execOne( s, c, msg );
        std::cout << "replay of " << s.name << "\n";
        for( auto & t : c.mTrace ) std::cout << "  " << t << "\n";
        std::cout << ( rc == 1 ? "FAILS: " + msg : rc == 2 ? "known: " + msg : std::string( "holds" ) ) << std::endl;
        return rc == 1 ? 1 : 0;
      }
      std::cout << "no such scenario" << std::endl; return 2;
    }
    int rc = 0;
    for( auto & s : scenarios )
    {
      if( !only.empty() && s.name.find( only ) == std::string::npos ) continue;
      if( runScenario( s ) ) { rc = 1; break; }
    }
    writeOut();
    return rc;
  }
private:
  friend class Chooser;
  std::vector<Scenario> scenarios;
  bool replay = false, noHang = false;
  std::vector<int> replayChoices;
  std::string only;
  double t0;
  uint64_t executions = 0, transitions = 0, steps = 0, compared = 0, mine = 0;
  bool exhaustive = true;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples; // JSON
  std::vector<std::string> perScenario; // JSON
  std::string violation; // JSON
  // sharding
  int curShardDepth = 3; uint64_t prefixOrdinal = 0; bool prefixFresh = true;

  int execOne( Scenario & s, Chooser & c, std::string & msg )
  {
    snprintf( crash().scenario, sizeof crash().scenario, "%s", s.name.c_str() );
    crash().n = 0; crash().beat = crash().beat + 1;
    try { s.fn( c ); return 0; }
    catch( Violation const & v ) { msg = v.msg; return 1; }
    catch( Known const & k ) { msg = k.key; return 2; }
    catch( Skip const & ) { return 3; }
    catch( std::exception const & e ) { msg = std::string( "unexpected exception: " ) + e.what(); return 1; }
    catch( char const * e ) { msg = std::string( "unexpected non-std exception: " ) + e; return 1; }
    catch( ... ) { msg = "unexpected exception of unknown type"; return 1; }
  }
  std::string sampleJson( Scenario & s, std::vector<int> const & ch )
  {
    Chooser c; c.mX = this; c.mForced = ch; c.mVerbose = true; c.mSharding = false;
    std::string msg; execOne( s, c, msg );
    std::ostringstream o; o << "{\"scenario\":" << jstr( s.name ) << ",\"trace\":[";
    for( size_t i = 0; i < c.mTrace.size() && i < 40; ++i ) o << ( i ? "," : "" ) << jstr( c.mTrace[ i ].substr( 0, 300 ) );
    o << "]}";
    return o.str();
  }
  bool runScenario( Scenario & s )
  {
    std::vector<int> forced; // next path prefix
    uint64_t ex0 = executions, tr0 = transitions;
    curShardDepth = s.shardDepth; prefixOrdinal = 0; prefixFresh = true;
    uint64_t nextSample = 1; int nSamples = 0;
    std::vector<std::pair<int,int>> prev;
    bool first = true;
    while( true )
    {
      Chooser c; c.mX = this; c.mForced = forced; c.mSharding = nShards > 1;
      // is the shard prefix new?
      if( !first )
      {
        prefixFresh = (int)forced.size() <= curShardDepth;
        if( prefixFresh ) ++prefixOrdinal;
      }
      first = false;
      std::string msg;
      int rc = execOne( s, c, msg );
      bool owned = nShards <= 1 || ( prefixOrdinal % nShards ) == (uint64_t)shard;
      if( rc != 3 && owned )
      {
        ++executions; steps += c.mSteps; compared += c.mCompared;
        size_t common = 0;
        while( common < prev.size() && common < c.mTaken.size() && prev[ common ] == c.mTaken[ common ] ) ++common;
        transitions += c.mTaken.size() - common;
        prev = c.mTaken;
        std::vector<int> ch; for( auto & t : c.mTaken ) ch.push_back( t.first );
        if( rc == 1 )
        {
          // confirm by replay before reporting
          Chooser r; r.mX = this; r.mForced = ch; r.mVerbose = true; r.mSharding = false;
          std::string msg2; int rc2 = execOne( s, r, msg2 );
          std::ostringstream o;
          o << "{\"scenario\":" << jstr( s.name ) << ",\"choices\":["; for( size_t i = 0; i < ch.size(); ++i ) o << ( i ? "," : "" ) << ch[ i ];
          o << "],\"message\":" << jstr( msg ) << ",\"reproduced\":" << ( rc2 == 1 ? "true" : "false" ) << ",\"replay_message\":" << jstr( msg2 ) << ",\"trace\":[";
          for( size_t i = 0; i < r.mTrace.size(); ++i ) o << ( i ? "," : "" ) << jstr( r.mTrace[ i ] );
          o << "]}";
          violation = o.str();
          return true;
        }
        uint64_t local = executions - ex0;
        if( shard == 0 && local == nextSample && nSamples < 3 ) { nextSample = nextSample * 7 + 3; ++nSamples; samples.push_back( sampleJson( s, ch ) ); }
      }
      // backtrack
      auto t = c.mTaken;
      while( !t.empty() && t.back().first + 1 >= t.back().second ) t.pop_back();
      if( t.empty() ) break;
      forced.clear(); for( size_t i = 0; i < t.size(); ++i ) forced.push_back( t[ i ].first );
      ++forced.back();
      if( now() - t0 > budget ) { exhaustive = false; break; }
    }
    std::ostringstream o; o << "{\"name\":" << jstr( s.name ) << ",\"executions\":" << executions - ex0 << ",\"transitions\":" << transitions - tr0 << "}";
    perScenario.push_back( o.str() );
    if( out.empty() ) std::cerr << o.str() << " t " << now() - t0 << std::endl;
    return false;
  }
  void writeOut()
  {
    if( out.empty() ) { std::cout << "executions " << executions << " transitions " << transitions << " states " << states.size() << " compared " << compared << " t " << now() - t0 << "\n"; if( !violation.empty() ) std::cout << violation << std::endl; for( auto & k : knownHit ) std::cout << "known " << k.first << ": " << k.second << "\n"; return; }
    std::ofstream f( out );
    f << "{\"executions\":" << executions << ",\"transitions\":" << transitions << ",\"steps\":" << steps << ",\"compared\":" << compared << ",\"states\":" << states.size()
      << ",\"exhaustive\":" << ( exhaustive ? "true" : "false" ) << ",\"scenarios\":[";
    for( size_t i = 0; i < perScenario.size(); ++i ) f << ( i ? "," : "" ) << perScenario[ i ];
    f << "],\"samples\":[";
    for( size_t i = 0; i < samples.size(); ++i ) f << ( i ? "," : "" ) << samples[ i ];
    f << "],\"known\":{";
    size_t i = 0; for( auto & k : knownHit ) f << ( i++ ? "," : "" ) << jstr( k.first ) << ":" << jstr( k.second );
    f << "},\"violation\":" << ( violation.empty() ? "null" : violation ) << "}\n";
    std::ofstream g( out + ".states", std::ios::binary );
    for( uint64_t h : states ) g.write( (char const *)&h, 8 );
  }
};

inline int Chooser::choose( int n, char const * what )
{
  if( n <= 0 ) throw Violation{ std::string( "harness error: empty choice " ) + what };
  size_t d = mTaken.size();
  int v = d < mForced.size() ? mForced[ d ] : 0;
  if( v >= n ) v = n - 1; // only in replays of stale files
  if( mSharding && (int)d == mX->curShardDepth )
  {
    // prefix of length shardDepth complete: decide ownership before exploring below it
    if( ( mX->prefixOrdinal % mX->nShards ) != (uint64_t)mX->shard ) throw Skip();
  }
  mTaken.push_back( { v, n } );
  CrashState & cs = crash();
  if( d < 4096 ) { cs.choices[ d ] = v; cs.n = (int)d + 1; }
  return v;
}
inline void Chooser::state( uint64_t h )
{
  if( mX->states.size() < 6000000 ) mX->states.insert( h );
  ++mSteps;
}
template<class... A> inline void Chooser::failKeyed( std::string const & key, A const &... a )
{
  std::ostringstream s; s.precision( 9 );
  int dummy[] = { 0, ( ( s << a ), 0 )... }; (void)dummy;
  if( mX->knownKeys.count( key ) ) { mX->knownHit.emplace( key, s.str() ); throw Known{ key }; }
  throw Violation{ "[" + key + "] " + s.str() };
}

// Swallow the library's console chatter (it reports errors on stdout/cout).
struct Mute
{
  std::streambuf * o; std::streambuf * e;
  struct Null : std::streambuf { int overflow( int c ) override { return c; } } nb;
  Mute() : o( std::cout.rdbuf( &nb ) ), e( std::cerr.rdbuf( &nb ) ) {}
  ~Mute() { std::cout.rdbuf( o ); std::cerr.rdbuf( e ); }
};
// Run f; returns true if it threw a std::exception-derived error. Non-std exceptions propagate.
template<class F> bool throws( F && f )
{
  try { f(); return false; } catch( Violation const & ) { throw; } catch( Skip const & ) { throw; } catch( Known const & ) { throw; } catch( std::exception const & ) { return true; }
}
} // namespace vx
