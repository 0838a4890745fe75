// Detection of data races between the two threads of sched.hpp with vector clocks. The code under test is compiled with -fsanitize=thread (flavour "race"), which makes every memory access and
// atomic operation call one of the functions below. Unordered accesses to the same byte, at least one of them a write, are reported in every explored schedule. Include before sched.hpp.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <malloc.h>
extern "C" void __libc_free( void * );
namespace race
{
using Clock = std::uint32_t; struct VC { Clock v[ 2 ]; };
struct Cell { std::uintptr_t granule; std::uint32_t generation; Clock w[ 8 ]; std::uint8_t wt[ 8 ]; Clock r[ 2 ][ 8 ]; void const * wpc, * rpc[ 2 ]; };
struct Sync { void const * p; VC c; };
bool tracking(); int thread(); void report( char const * );
struct State { static constexpr std::size_t N = 1u << 18; Cell * cells = nullptr; std::uint32_t generation = 0; std::size_t used = 0; VC c[ 2 ]; Sync syncs[ 4096 ]; std::size_t nSyncs = 0; unsigned long long accesses = 0; bool full = false; };
inline State & s() { static State x; return x; }
inline Cell * cell( std::uintptr_t g, bool create )
{
  State & x = s(); std::size_t i = ( g * 0x9E3779B97F4A7C15ull ) >> 46;
  for( ;; i = ( i + 1 ) & ( State::N - 1 ) ) { Cell & e = x.cells[ i ]; if( e.generation != x.generation ) { if( !create ) return nullptr; if( ++x.used > State::N / 2 ) { x.full = true; report( "race detector: out of cells" ); } std::memset( &e, 0, sizeof e ); e.granule = g; e.generation = x.generation; return &e; } if( e.granule == g ) return &e; }
}
inline void access( void const * p, std::size_t n, bool write, void const * pc )
{
  if( !tracking() ) return; State & x = s(); int const t = thread(), o = 1 - t; ++x.accesses; std::uintptr_t a = (std::uintptr_t)p; std::uintptr_t const e = a + n;
  while( a < e )
  {
    Cell & k = *cell( a >> 3, true );
    for( ; a < e; ++a )
    {
      unsigned const b = a & 7;
      bool const ww = k.w[ b ] && k.wt[ b ] == o && k.w[ b ] > x.c[ t ].v[ o ], rw = write && k.r[ o ][ b ] > x.c[ t ].v[ o ];
      if( ww || rw ) { char m[ 200 ]; std::snprintf( m, sizeof m, "data race: %s by the %s thread at %p is not ordered with a %s by the other thread at %p", write ? "write" : "read", t ? "service" : "processing", pc, ww ? "write" : "read", ww ? k.wpc : k.rpc[ o ] ); void * q[ 2 ] = { (void *)pc, (void *)( ww ? k.wpc : k.rpc[ o ] ) }; backtrace_symbols_fd( q, 2, 2 ); report( m ); }
      if( write ) { k.w[ b ] = x.c[ t ].v[ t ]; k.wt[ b ] = (std::uint8_t)t; k.wpc = pc; } else { k.r[ t ][ b ] = x.c[ t ].v[ t ]; k.rpc[ t ] = pc; }
      if( b == 7 ) { ++a; break; }
    }
  }
}
inline void forget( void * p, std::size_t n ) { if( !s().cells ) return; for( std::uintptr_t g = (std::uintptr_t)p >> 3, e = ( (std::uintptr_t)p + n + 7 ) >> 3; g < e; ++g ) if( Cell * k = cell( g, false ) ) { std::memset( k->w, 0, sizeof k->w ); std::memset( k->r, 0, sizeof k->r ); } }
inline VC & sync( void const * p ) { State & x = s(); for( std::size_t i = 0; i < x.nSyncs; ++i ) if( x.syncs[ i ].p == p ) return x.syncs[ i ].c; if( x.nSyncs == 4096 ) report( "race detector: out of synchronisation objects" ); x.syncs[ x.nSyncs ] = Sync{ p, { { 0, 0 } } }; return x.syncs[ x.nSyncs++ ].c; }
inline void join( VC & a, VC const & b ) { for( int k = 0; k < 2; ++k ) if( b.v[ k ] > a.v[ k ] ) a.v[ k ] = b.v[ k ]; }
inline void acquire( void const * p ) { if( tracking() ) join( s().c[ thread() ], sync( p ) ); }
inline void release( void const * p ) { if( tracking() ) { int const t = thread(); join( sync( p ), s().c[ t ] ); ++s().c[ t ].v[ t ]; } }
inline void fork() { State & x = s(); x.c[ 1 ] = x.c[ 0 ]; x.c[ 1 ].v[ 1 ] = 1; ++x.c[ 0 ].v[ 0 ]; }
inline void begin() { State & x = s(); if( !x.cells ) x.cells = (Cell *)std::calloc( State::N, sizeof( Cell ) ); ++x.generation; x.used = x.nSyncs = 0; x.c[ 0 ] = VC{ { 1, 0 } }; x.c[ 1 ] = VC{ { 0, 1 } }; }
}
#define SCHED_ACQUIRE( m ) race::acquire( m )
#define SCHED_RELEASE( m ) race::release( m )
#define SCHED_FORK() race::fork()
#define SCHED_BEGIN() race::begin()
#define RACE_PC __builtin_return_address( 0 )
extern "C"
{
void __tsan_init() {} void __tsan_func_entry( void * ) {} void __tsan_func_exit() {}
#define RACE_ACCESS( n ) void __tsan_read##n( void * p ) { race::access( p, n, false, RACE_PC ); } void __tsan_write##n( void * p ) { race::access( p, n, true, RACE_PC ); } \
  void __tsan_unaligned_read##n( void * p ) { race::access( p, n, false, RACE_PC ); } void __tsan_unaligned_write##n( void * p ) { race::access( p, n, true, RACE_PC ); }
RACE_ACCESS( 1 ) RACE_ACCESS( 2 ) RACE_ACCESS( 4 ) RACE_ACCESS( 8 ) RACE_ACCESS( 16 )
void __tsan_read_range( void * p, std::size_t n ) { race::access( p, n, false, RACE_PC ); }
void __tsan_write_range( void * p, std::size_t n ) { race::access( p, n, true, RACE_PC ); }
void __tsan_vptr_update( void ** p, void * v ) { if( *p != v ) race::access( p, sizeof *p, true, RACE_PC ); }
void __tsan_vptr_read( void ** p ) { race::access( p, sizeof *p, false, RACE_PC ); }
void __tsan_atomic_thread_fence( int ) {} void __tsan_atomic_signal_fence( int ) {}
#define RACE_ATOMIC( b, T ) \
  T __tsan_atomic##b##_load( T const volatile * a, int ) { T const r = __atomic_load_n( a, 5 ); race::acquire( (void const *)a ); return r; } \
  void __tsan_atomic##b##_store( T volatile * a, T v, int ) { race::release( (void const *)a ); __atomic_store_n( a, v, 5 ); } \
  T __tsan_atomic##b##_exchange( T volatile * a, T v, int ) { race::acquire( (void const *)a ); race::release( (void const *)a ); return __atomic_exchange_n( a, v, 5 ); } \
  T __tsan_atomic##b##_fetch_add( T volatile * a, T v, int ) { race::acquire( (void const *)a ); race::release( (void const *)a ); return __atomic_fetch_add( a, v, 5 ); } \
  T __tsan_atomic##b##_fetch_sub( T volatile * a, T v, int ) { race::acquire( (void const *)a ); race::release( (void const *)a ); return __atomic_fetch_sub( a, v, 5 ); } \
  T __tsan_atomic##b##_fetch_and( T volatile * a, T v, int ) { race::acquire( (void const *)a ); race::release( (void const *)a ); return __atomic_fetch_and( a, v, 5 ); } \
  T __tsan_atomic##b##_fetch_or( T volatile * a, T v, int ) { race::acquire( (void const *)a ); race::release( (void const *)a ); return __atomic_fetch_or( a, v, 5 ); } \
  T __tsan_atomic##b##_fetch_xor( T volatile * a, T v, int ) { race::acquire( (void const *)a ); race::release( (void const *)a ); return __atomic_fetch_xor( a, v, 5 ); } \
  int __tsan_atomic##b##_compare_exchange_strong( T volatile * a, T * c, T v, int, int ) { race::acquire( (void const *)a ); race::release( (void const *)a ); return __atomic_compare_exchange_n( a, c, v, false, 5, 5 ); } \
  int __tsan_atomic##b##_compare_exchange_weak( T volatile * a, T * c, T v, int, int ) { race::acquire( (void const *)a ); race::release( (void const *)a ); return __atomic_compare_exchange_n( a, c, v, false, 5, 5 ); } \
  T __tsan_atomic##b##_compare_exchange_val( T volatile * a, T c, T v, int, int ) { race::acquire( (void const *)a ); race::release( (void const *)a ); __atomic_compare_exchange_n( a, &c, v, false, 5, 5 ); return c; }
RACE_ATOMIC( 8, std::uint8_t ) RACE_ATOMIC( 16, std::uint16_t ) RACE_ATOMIC( 32, std::uint32_t ) RACE_ATOMIC( 64, std::uint64_t )
// Memory that is returned has no history.
void free( void * p ) noexcept { if( p && race::tracking() ) race::forget( p, malloc_usable_size( p ) ); __libc_free( p ); }
}
#include "sched.hpp"
namespace race { bool tracking() { return sched::w().active && !sched::w().inside && sched::w().st[ 1 ] != sched::St::Gone && sched::self() >= 0 && ( sched::self() == 1 || sched::w().st[ 0 ] == sched::St::Running ); } int thread() { return sched::self(); } void report( char const * m ) { sched::w().inside = true; sched::stuck( m ); } }
