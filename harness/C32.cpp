//! LIBS: py_visr py_efl py_rbbl py_pml py_objectmodel py_panning py_panningdsp py_rcl py_reverbobject py_rrl py_signalflows signalflows reverbobject panningdsp visr rcl rrl rbbl efl pml objectmodel panning kissfft ffts
//! LINK: -lpython3.12 -lboost_filesystem -lboost_thread -lboost_system -lsndfile -ldl -lutil
//! CXXFLAGS: -I/usr/include/python3.12 -I@REPO@/3rd/pybind11/include -fvisibility=hidden
// The Python interface. All modules of the repository are linked into this program as built-in modules; the scenarios are written in Python (harness/C32.py).
#include "explore.hpp"
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <cstdlib>
#include <memory>
#ifndef SCENARIOS
#define SCENARIOS "C32"
#endif
namespace py = pybind11;
using vx::Chooser;
#define MODULES( X ) X( visr ) X( efl ) X( rbbl ) X( pml ) X( objectmodel ) X( panning ) X( panningdsp ) X( rcl ) X( reverbobject ) X( rrl ) X( signalflows )
#define DECLARE( m ) extern "C" PyObject * PyInit_##m();
MODULES( DECLARE )
static std::exception_ptr pending; // an exception of the explorer on its way through the Python interpreter
static PyObject * stop = nullptr;  // its Python counterpart, which "except Exception" does not catch
template<typename F> static auto guarded( F f ) -> decltype( f() ) { try { return f(); } catch( ... ) { pending = std::current_exception(); PyErr_SetNone( stop ); throw py::error_already_set(); } }
PYBIND11_EMBEDDED_MODULE( vx, m )
{
  stop = PyErr_NewException( "vx.Stop", PyExc_BaseException, nullptr ); m.attr( "Stop" ) = py::reinterpret_borrow<py::object>( stop );
  py::class_<Chooser>( m, "Chooser" )
    .def( "choose", []( Chooser & c, int n, std::string const & l ) { return guarded( [&] { return c.choose( n, l.c_str() ); } ); }, py::arg( "n" ), py::arg( "label" ) = "" )
    .def( "flag", []( Chooser & c, std::string const & l ) { return guarded( [&] { return c.flag( l.c_str() ); } ); } )
    .def( "note", []( Chooser & c, std::string const & l ) { guarded( [&] { c.note( l ); } ); } )
    .def( "verbose", []( Chooser & c ) { return guarded( [&] { return c.verbose(); } ); } )
    .def( "state", []( Chooser & c, std::string const & s ) { guarded( [&] { c.state( s ); } ); } )
    .def( "compared", []( Chooser & c, long n ) { guarded( [&] { c.compared( n ); } ); }, py::arg( "n" ) = 1 )
    .def( "fail", []( Chooser & c, std::string const & s ) { guarded( [&] { c.fail( s ); } ); } );
}
int main( int argc, char ** argv )
{
  vx::Explorer x( argc, argv ); bool const quick = x.quick();
#define REGISTER( m ) PyImport_AppendInittab( #m, &PyInit_##m );
  MODULES( REGISTER )
  py::scoped_interpreter python;
  std::string const path = std::string( __FILE__ ).substr( 0, std::string( __FILE__ ).rfind( '/' ) );
  py::module::import( "sys" ).attr( "path" ).attr( "insert" )( 0, path ); py::module::import( "sys" ).attr( "dont_write_bytecode" ) = true;
  py::module::import( "vx" ); py::dict scenarios = py::module::import( SCENARIOS ).attr( "scenarios" )( quick );
  for( auto const & s : scenarios )
  {
    py::object fn = s.second.attr( "__getitem__" )( 0 ); int const depth = s.second.attr( "__getitem__" )( 1 ).cast<int>();
    PyObject * f = fn.ptr();
    x.add( s.first.cast<std::string>(), [f]( Chooser & c ) {
      try { pending = nullptr; py::reinterpret_borrow<py::object>( f )( py::cast( &c, py::return_value_policy::reference ) ); }
      catch( py::error_already_set & e ) { if( pending ) { std::exception_ptr p = pending; pending = nullptr; std::rethrow_exception( p ); } throw std::runtime_error( e.what() ); }
    }, depth );
  }
  return x.run();
}
