// Drives a component through AudioSignalFlow, one period at a time, with the shared test signal.
#pragma once
#include "interp.hpp"
#include <libvisr/signal_flow_context.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <librrl/audio_signal_flow.hpp>
using namespace visr;
using vx::Chooser;
struct Runner
{
  rrl::AudioSignalFlow flow; std::size_t N, nIn, nOut; long t = 0; std::vector<std::vector<float>> in, out;
  Runner( Component & comp, std::size_t n, std::size_t i, std::size_t o ) : flow( comp ), N( n ), nIn( i ), nOut( o ) {}
  virtual ~Runner() {}
  virtual double signal( std::size_t ch, long time ) { return sample( ch, time ); }
  // returns false if the period failed
  bool step()
  {
    in.assign( nIn, std::vector<float>( N ) ); out.assign( nOut, std::vector<float>( N, -77.f ) );
    std::vector<float> ib( nIn * N + 1 ), ob( nOut * N + 1, -77.f );
    for( std::size_t i = 0; i < nIn; ++i ) for( std::size_t s = 0; s < N; ++s ) ib[ i * N + s ] = in[ i ][ s ] = (float)signal( i, t + (long)s );
    bool ok = true;
    { vx::Mute m; try { flow.process( ib.data(), N, 1, ob.data(), N, 1 ); } catch( std::exception const & ) { ok = false; } }
    if( ok ) for( std::size_t o = 0; o < nOut; ++o ) std::copy( ob.begin() + o * N, ob.begin() + ( o + 1 ) * N, out[ o ].begin() );
    t += (long)N; return ok;
  }
};
template<typename P> P & control( rrl::AudioSignalFlow & f, char const * name, pml::DoubleBufferingProtocol::OutputBase *& port )
{
  port = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase *>( &f.externalParameterReceivePort( name ) );
  return dynamic_cast<P &>( port->data() );
}
