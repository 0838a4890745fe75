// Reference for delayed, Lagrange-interpolated test signals.
#pragma once
#include "explore.hpp"
static double sample( std::size_t ch, long t ) { return t < 0 ? 0.0 : double( 1 + vx::mix( ch + 17, t ) % 97 ); }

static double lagrange( int order, int i, double mu )
{
  double r = 1, xi = i - 0.5 * order;
  for( int j = 0; j <= order; ++j ) if( j != i ) { double xj = j - 0.5 * order; r *= ( mu - xj ) / ( xi - xj ); }
  return r;
}
// Interpolated value at time x (x = position relative to the newest sample 't-1'): all admissible values (two at the switching point between node sets).
static bool admissible( int order, std::size_t ch, long newest, double x, double gain, double got, double tol, double & shown )
{
  double const shift = x - 0.5 * order, base = std::floor( shift + 0.5 );
  bool ok = false;
  for( int alt = -1; alt <= 1; ++alt )
  {
    double const b = base + alt, mu = shift - b;
    if( std::abs( mu ) > 0.5 + 1e-3 ) continue;
    double v = 0; for( int i = 0; i <= order; ++i ) v += lagrange( order, i, mu ) * sample( ch, newest + long( b ) + i );
    shown = v * gain; ok = ok || std::abs( got - v * gain ) <= tol;
  }
  return ok;
}
