// Reference model for FIR convolution: complete input history, direct convolution.
#pragma once
#include "interp.hpp"
#include <libefl/basic_matrix.hpp>
#include <librbbl/filter_routing.hpp>
#include <map>
using namespace visr;
using vx::Chooser;
using Filter = std::vector<double>;
// Filter number v of the given length: integer taps, all different.
static Filter fir( int v, std::size_t len ) { Filter f( len ); for( std::size_t k = 0; k < len; ++k ) f[ k ] = double( int( vx::mix( v + 101, k ) % 15 ) - 7 ) + ( k + 1 == len ? 0.5 : 0.0 ); return f; }
struct History
{
  std::vector<std::vector<double>> x; // [channel][time]
  explicit History( std::size_t n ) : x( n ) {}
  double conv( std::size_t ch, Filter const & f, long t ) const { double r = 0; for( std::size_t k = 0; k < f.size(); ++k ) { long const i = t - long( k ); if( i >= 0 ) r += f[ k ] * x[ ch ][ std::size_t( i ) ]; } return r; }
  long length() const { return x.empty() ? 0 : long( x[ 0 ].size() ); }
};
struct Route { std::size_t filter; double gain; };
using Routes = std::map<std::pair<std::size_t, std::size_t>, Route>; // (output, input) -> filter, gain
template<typename T> static efl::BasicMatrix<T> filterMatrix( std::vector<Filter> const & f, std::size_t len, std::size_t align )
{
  efl::BasicMatrix<T> m( f.size(), len, align );
  for( std::size_t r = 0; r < f.size(); ++r ) for( std::size_t k = 0; k < std::min( len, f[ r ].size() ); ++k ) m( r, k ) = T( f[ r ][ k ] );
  return m;
}
template<typename T> static std::vector<T> cast( Filter const & f ) { return std::vector<T>( f.begin(), f.end() ); }
static double small( std::size_t ch, long t ) { return double( int( vx::mix( ch + 5, t ) % 19 ) - 9 ); }
