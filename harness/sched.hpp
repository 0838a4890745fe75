// Controlled scheduling of two threads: the main thread (0) and one service thread (1) created while control is active. Exactly one of them runs at a time; at every
// mutex operation, allocation and socket call the scheduler may switch to the other thread, within a budget of preemptions. All such schedules are enumerated by the chooser.
// Link with -Wl,--wrap= for pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_unlock, recvmsg, sendmsg, recvfrom, sendto, recv, send, epoll_wait, _Znwm, _ZdlPvm.
#pragma once
#include "explore.hpp"
#include <dlfcn.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/socket.h>
extern "C"
{
int __real_pthread_mutex_lock( pthread_mutex_t * ); int __real_pthread_mutex_unlock( pthread_mutex_t * ); int __real_pthread_mutex_trylock( pthread_mutex_t * ); ssize_t __real_recvmsg( int, msghdr *, int ); ssize_t __real_sendmsg( int, msghdr const *, int ); int __real_epoll_wait( int, epoll_event *, int, int ); void * __real__Znwm( std::size_t ); void __real__ZdlPvm( void *, std::size_t );
ssize_t __real_recvfrom( int, void *, std::size_t, int, sockaddr *, socklen_t * ); ssize_t __real_sendto( int, void const *, std::size_t, int, sockaddr const *, socklen_t ); ssize_t __real_recv( int, void *, std::size_t, int ); ssize_t __real_send( int, void const *, std::size_t, int );
}
// Observers of synchronisation (see race.hpp).
#ifndef SCHED_ACQUIRE
#define SCHED_ACQUIRE( m )
#define SCHED_RELEASE( m )
#define SCHED_FORK()
#define SCHED_BEGIN()
#endif
namespace sched
{
enum class St { None, Starting, Running, Parked, Idle, Blocked, Away, Gone };
struct World { vx::Chooser * c = nullptr; bool active = false, allocs = false, region = false, inside = false; int budget = 0; St st[ 2 ] = { St::None, St::None }; sem_t sem[ 2 ]; int epfd = -1; pthread_mutex_t * want[ 2 ] = { nullptr, nullptr }; long points = 0, switches = 0; };
inline World & w() { static World x; return x; }
inline int & self() { static thread_local int id = -1; return id; }
struct Exit { bool armed = false; ~Exit() { World & x = w(); if( armed && x.active ) { x.st[ 1 ] = St::Gone; if( x.st[ 0 ] == St::Parked || x.st[ 0 ] == St::Blocked ) { x.st[ 0 ] = St::Running; sem_post( &x.sem[ 0 ] ); } } } };
inline void stuck( char const * what ) { std::snprintf( vx::crash().what, sizeof vx::crash().what, "%s", what ); std::fprintf( stderr, "%s\n", what ); std::abort(); }
inline bool enabled( int t )
{
  World & x = w();
  switch( x.st[ t ] )
  {
  case St::Parked: return true;
  case St::Idle: { pollfd p{ x.epfd, POLLIN, 0 }; return ::poll( &p, 1, 0 ) > 0; }
  case St::Blocked: if( __real_pthread_mutex_trylock( x.want[ t ] ) != 0 ) return false; __real_pthread_mutex_unlock( x.want[ t ] ); return true;
  default: return false;
  }
}
inline void waitFor( int t ) { while( sem_wait( &w().sem[ t ] ) != 0 ) {} }
inline void switchFrom( int t, St as ) { World & x = w(); int const o = 1 - t; x.st[ t ] = as; x.st[ o ] = St::Running; ++x.switches; sem_post( &x.sem[ o ] ); waitFor( t ); if( x.active ) x.st[ t ] = St::Running; }
inline bool controlled()
{
  World & x = w(); if( !x.active || x.inside ) return false;
  if( self() < 0 )
  {
    if( x.st[ 1 ] != St::Starting ) return false;
    self() = 1; static thread_local Exit e; e.armed = true; x.st[ 1 ] = St::Parked; sem_post( &x.sem[ 0 ] ); waitFor( 1 ); if( !x.active ) return false; x.st[ 1 ] = St::Running;
  }
  return self() == 1 || x.region;
}
inline void point()
{
  World & x = w(); int const t = self(); ++x.points; if( x.budget <= 0 || !enabled( 1 - t ) ) return;
  x.inside = true; bool const go = x.c->choose( 2, "preempt" ) == 1; x.inside = false;
  if( go ) { --x.budget; switchFrom( t, St::Parked ); }
}
inline void hit() { if( controlled() ) point(); }
inline void block( char const * what, St as ) { int const t = self(); if( !enabled( 1 - t ) ) stuck( what ); switchFrom( t, as ); }
// Main thread only.
inline void begin( vx::Chooser & c, int budget, bool allocs ) { World & x = w(); x.c = &c; x.budget = budget; x.allocs = allocs; x.st[ 0 ] = St::Running; x.st[ 1 ] = St::None; sem_init( &x.sem[ 0 ], 0, 0 ); sem_init( &x.sem[ 1 ], 0, 0 ); self() = 0; x.points = x.switches = 0; x.region = x.inside = false; SCHED_BEGIN(); x.active = true; }
inline void end() { World & x = w(); if( !x.active ) return; x.active = false; x.region = false; if( x.st[ 1 ] == St::Parked || x.st[ 1 ] == St::Idle || x.st[ 1 ] == St::Blocked ) sem_post( &x.sem[ 1 ] ); }
struct Region { Region() { w().region = true; } ~Region() { w().region = false; } };
inline void turn() { if( w().active && enabled( 1 ) ) switchFrom( 0, St::Parked ); }
inline void settle() { World & x = w(); int const b = x.budget; x.budget = 0; while( x.active && enabled( 1 ) ) switchFrom( 0, St::Parked ); x.budget = b; }
struct Guard { ~Guard() { end(); } };
}
extern "C"
{
inline __attribute__( ( used ) ) int __wrap_pthread_mutex_lock( pthread_mutex_t * m )
{
  using namespace sched; if( !controlled() ) { int const r = __real_pthread_mutex_lock( m ); SCHED_ACQUIRE( m ); return r; } point();
  while( w().active ) { if( __real_pthread_mutex_trylock( m ) == 0 ) { SCHED_ACQUIRE( m ); return 0; } w().want[ self() ] = m; block( "deadlock: both threads wait for a mutex", St::Blocked ); }
  return __real_pthread_mutex_lock( m );
}
inline __attribute__( ( used ) ) int __wrap_pthread_mutex_trylock( pthread_mutex_t * m ) { sched::hit(); int const r = __real_pthread_mutex_trylock( m ); if( r == 0 ) { SCHED_ACQUIRE( m ); } return r; }
inline __attribute__( ( used ) ) int __wrap_pthread_mutex_unlock( pthread_mutex_t * m ) { SCHED_RELEASE( m ); int const r = __real_pthread_mutex_unlock( m ); sched::hit(); return r; }
inline __attribute__( ( used ) ) ssize_t __wrap_recvmsg( int f, msghdr * m, int g ) { sched::hit(); return __real_recvmsg( f, m, g ); }
inline __attribute__( ( used ) ) ssize_t __wrap_sendmsg( int f, msghdr const * m, int g ) { sched::hit(); return __real_sendmsg( f, m, g ); }
inline __attribute__( ( used ) ) ssize_t __wrap_recvfrom( int f, void * b, std::size_t n, int g, sockaddr * a, socklen_t * l ) { sched::hit(); return __real_recvfrom( f, b, n, g, a, l ); }
inline __attribute__( ( used ) ) ssize_t __wrap_sendto( int f, void const * b, std::size_t n, int g, sockaddr const * a, socklen_t l ) { sched::hit(); return __real_sendto( f, b, n, g, a, l ); }
inline __attribute__( ( used ) ) ssize_t __wrap_recv( int f, void * b, std::size_t n, int g ) { sched::hit(); return __real_recv( f, b, n, g ); }
inline __attribute__( ( used ) ) ssize_t __wrap_send( int f, void const * b, std::size_t n, int g ) { sched::hit(); return __real_send( f, b, n, g ); }
inline __attribute__( ( used ) ) void * __wrap__Znwm( std::size_t n ) { if( sched::w().allocs ) sched::hit(); return __real__Znwm( n ); }
inline __attribute__( ( used ) ) void __wrap__ZdlPvm( void * p, std::size_t n ) { if( sched::w().allocs ) sched::hit(); __real__ZdlPvm( p, n ); }
inline __attribute__( ( used ) ) int __wrap_epoll_wait( int e, epoll_event * v, int n, int timeout )
{
  using namespace sched; if( timeout == 0 || !controlled() || self() != 1 ) return __real_epoll_wait( e, v, n, timeout );
  while( w().active ) { int const r = __real_epoll_wait( e, v, n, 0 ); if( r != 0 ) return r; w().epfd = e; block( "the service thread does not terminate", St::Idle ); }
  return __real_epoll_wait( e, v, n, timeout );
}
int pthread_create( pthread_t * t, pthread_attr_t const * a, void * ( *f )( void * ), void * p )
{
  using namespace sched; static auto const real = (int ( * )( pthread_t *, pthread_attr_t const *, void * ( * )( void * ), void * ))dlsym( RTLD_NEXT, "pthread_create" ); World & x = w();
  if( !x.active || self() != 0 ) return real( t, a, f, p );
  SCHED_FORK(); x.st[ 1 ] = St::Starting; int const r = real( t, a, f, p ); if( r == 0 ) waitFor( 0 ); else x.st[ 1 ] = St::None; return r;
}
// Waiting for the termination of the service thread.
int pthread_cond_wait( pthread_cond_t * v, pthread_mutex_t * m )
{
  using namespace sched; static auto const real = (int ( * )( pthread_cond_t *, pthread_mutex_t * ))dlsym( RTLD_NEXT, "pthread_cond_wait" ); World & x = w();
  if( !x.active || self() != 0 || !x.region ) return real( v, m );
  if( x.st[ 1 ] == St::Gone || x.st[ 1 ] == St::None ) { x.active = false; return real( v, m ); }
  if( !enabled( 1 ) ) stuck( "the service thread does not terminate" );
  x.st[ 0 ] = St::Away; x.st[ 1 ] = St::Running; sem_post( &x.sem[ 1 ] ); int const r = real( v, m ); x.active = false; return r;
}
int pthread_join( pthread_t t, void ** p )
{
  using namespace sched; static auto const real = (int ( * )( pthread_t, void ** ))dlsym( RTLD_NEXT, "pthread_join" ); World & x = w();
  if( !x.active || self() != 0 || !x.region ) return real( t, p );
  if( x.st[ 1 ] == St::Gone || x.st[ 1 ] == St::None ) { x.active = false; return real( t, p ); }
  if( !enabled( 1 ) ) stuck( "the service thread does not terminate" );
  x.st[ 0 ] = St::Away; x.st[ 1 ] = St::Running; sem_post( &x.sem[ 1 ] ); int const r = real( t, p ); x.active = false; return r;
}
}
