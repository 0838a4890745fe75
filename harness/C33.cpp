//! LIBS: py_visr py_efl py_rbbl py_pml py_objectmodel py_panning py_panningdsp py_rcl py_reverbobject py_rrl py_signalflows signalflows reverbobject panningdsp visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lpython3.12 -lboost_filesystem -lboost_thread -lboost_system -lsndfile -ldl -lutil
//! CXXFLAGS: -I/usr/include/python3.12 -I@REPO@/3rd/pybind11/include -fvisibility=hidden
// The Binaural Synthesis Toolkit (src/python/packages/visr_bst): the interpreter of C32 with the scenarios of harness/C33.py.
#define SCENARIOS "C33"
#include "C32.cpp"
