//! LIBS: visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lboost_filesystem -lboost_system -lsndfile -lboost_thread -lpthread -ldl -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=recvmsg,--wrap=sendmsg,--wrap=recvfrom,--wrap=sendto,--wrap=recv,--wrap=send,--wrap=epoll_wait,--wrap=_Znwm,--wrap=_ZdlPvm
//! FLAVOUR: race
// The schedules of C06.cpp with detection of data races.
#include "race.hpp"
#include "C06.cpp"
