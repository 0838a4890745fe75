// Audio objects: enumeration of objects by attribute choices and an exact description of their contents.
#pragma once
#include "explore.hpp"
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/object_factory.hpp>
#include <libobjectmodel/object_parser.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/object_vector_parser.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libobjectmodel/point_source_extent.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libobjectmodel/point_source_with_reverb.hpp>
#include <functional>
#include <limits>
#include <memory>
namespace om = visr::objectmodel;
using Eq = visr::rbbl::ParametricIirCoefficientBase::Type;
using EqCoeff = visr::rbbl::ParametricIirCoefficient<float>;
using EqList = visr::rbbl::ParametricIirCoefficientList<float>;
using Reverb = om::PointSourceWithReverb;

struct Text
{
  std::string s;
  Text & f( char const * n, double v ) { char b[ 96 ]; std::snprintf( b, sizeof b, " %s=%a", n, v ); s += b; return *this; }
  Text & g( char const * n, double v ) { char b[ 96 ]; std::snprintf( b, sizeof b, " %s=%.5e", n, v + 0. ); s += b; return *this; } // float sequences are read to within a few ulp
  Text & i( char const * n, unsigned long v ) { s += std::string( " " ) + n + "=" + std::to_string( v ); return *this; }
};
inline std::string describe( om::Object const & o )
{
  Text t; t.i( "type", (unsigned long)o.type() ).i( "id", o.id() ).i( "group", o.groupId() ).f( "level", o.level() ).i( "priority", o.priority() );
  t.s += " channels="; for( std::size_t k = 0; k < o.numberOfChannels(); ++k ) t.s += std::to_string( o.channelIndex( k ) ) + ",";
  for( auto const & e : o.eqCoefficients() ) t.i( "eq", (unsigned long)e.type() ).f( "f", e.frequency() ).f( "q", e.quality() ).f( "g", e.gain() );
  if( auto p = dynamic_cast<om::PointSource const *>( &o ) ) { t.f( "x", p->x() ).f( "y", p->y() ).f( "z", p->z() ).f( "lock", p->channelLockDistance() ); t.s += p->channelLock() ? " locked" : " unlocked"; }
  if( auto p = dynamic_cast<om::PointSourceWithDiffuseness const *>( &o ) ) t.f( "diffuseness", p->diffuseness() );
  if( auto p = dynamic_cast<om::PointSourceExtent const *>( &o ) ) t.f( "width", p->width() ).f( "height", p->height() ).f( "depth", p->depth() );
  if( auto p = dynamic_cast<om::PlaneWave const *>( &o ) ) t.f( "az", p->incidenceAzimuth() ).f( "el", p->incidenceElevation() ).f( "ref", p->referenceDistance() );
  if( auto p = dynamic_cast<om::HoaSource const *>( &o ) ) t.i( "order", p->order() );
  if( auto p = dynamic_cast<om::ChannelObject const *>( &o ) ) { t.f( "diffuseness", p->diffuseness() ); t.s += " out="; for( auto const & l : p->outputChannels() ) { t.s += "["; for( auto const & n : l ) t.s += n + "|"; t.s += "]"; } }
  if( auto p = dynamic_cast<Reverb const *>( &o ) )
  {
    for( std::size_t k = 0; k < p->numberOfDiscreteReflections(); ++k )
    {
      auto const & r = p->discreteReflection( k ); t.f( "\n refl x", r.positionX() ).f( "y", r.positionY() ).f( "z", r.positionZ() ).f( "delay", r.delay() ).f( "level", r.level() );
      for( std::size_t b = 0; b < Reverb::cNumDiscreteReflectionBiquads; ++b ) { auto const & q = r.reflectionFilter( b ); t.f( "b0", q.b0() ).f( "b1", q.b1() ).f( "b2", q.b2() ).f( "a1", q.a1() ).f( "a2", q.a2() ); }
    }
    t.f( "\n late", p->lateReverbOnset() ); for( std::size_t k = 0; k < Reverb::cNumberOfSubBands; ++k ) t.g( "l", p->lateReverbLevels()[ k ] ).g( "a", p->lateReverbAttackTimes()[ k ] ).g( "d", p->lateReverbDecayCoeffs()[ k ] );
  }
  return t.s;
}
inline std::string describe( om::ObjectVector const & v ) { std::string s; for( auto it = v.cbegin(); it != v.cend(); ++it ) s += describe( *it ) + "\n"; return s; }

static std::vector<om::ObjectTypeId> const kTypes{ om::ObjectTypeId::PointSource, om::ObjectTypeId::PointSourceWithDiffuseness, om::ObjectTypeId::PointSourceExtent, om::ObjectTypeId::PlaneWave, om::ObjectTypeId::DiffuseSource, om::ObjectTypeId::ChannelObject, om::ObjectTypeId::HoaSource, om::ObjectTypeId::PointSourceWithReverb };
static std::vector<float> const kFloats{ 0.f, 1.f, -2.5f, 0.1f, 1.f / 3.f, 1e-30f, std::numeric_limits<float>::max(), -std::numeric_limits<float>::min(), 123456789.f };
// An object whose attributes depend on the type and on a choice function val(attribute index, number of values) -> value index.
inline std::unique_ptr<om::Object> makeObject( int typeIdx, unsigned id, std::function<int( int, int )> val )
{
  om::ObjectTypeId const type = kTypes[ (std::size_t)typeIdx ]; auto o = om::ObjectFactory::create( type, id ); int a = 0;
  auto fl = [&] { return kFloats[ (std::size_t)val( a++, (int)kFloats.size() ) ]; };
  o->setGroupId( std::vector<unsigned>{ 0, 7, 4294967295u }[ (std::size_t)val( a++, 3 ) ] ); o->setLevel( fl() ); o->setPriority( std::vector<unsigned char>{ 0, 3, 255, 'x' }[ (std::size_t)val( a++, 4 ) ] );
  { EqList e; int const n = val( a++, 10 ); // flat, each filter type, two filters
    if( n > 0 && n < 9 ) e = EqList{ EqCoeff( (Eq)( n - 1 ), 1000.f / 3.f, 0.7071f, -3.1f ) }; else if( n == 9 ) e = EqList{ EqCoeff( Eq::peak, 100.f, 0.1f, 6.f ), EqCoeff( Eq::lowshelf, 22050.5f, 1.f, 0.f ) };
    o->setEqCoefficients( e ); }
  std::vector<std::vector<unsigned>> const lists{ { 4 }, { 0 }, {}, { 3, 1 }, { 2, 3, 4 }, { 7, 7 }, { 65535, 0, 12, 100000 } };
  auto setCh = [&]( std::vector<unsigned> const & l ) { o->resetNumberOfChannels( l.size() ); for( std::size_t k = 0; k < l.size(); ++k ) o->setChannelIndex( k, l[ k ] ); };
  if( auto h = dynamic_cast<om::HoaSource *>( o.get() ) ) { unsigned const ord = (unsigned)val( a++, 4 ); std::vector<unsigned> l; for( unsigned k = 0; k < ( ord + 1 ) * ( ord + 1 ); ++k ) l.push_back( 31 - k ); setCh( l ); h->setOrder( ord ); return o; }
  setCh( lists[ (std::size_t)val( a++, (int)lists.size() ) ] );
  if( auto p = dynamic_cast<om::PointSource *>( o.get() ) ) { p->setX( fl() ); p->setY( fl() ); p->setZ( fl() ); switch( val( a++, 5 ) ) { case 0: break; case 1: p->setChannelLock( 12.3f ); break; case 2: p->setChannelLock(); break; case 3: p->setChannelLock( 1e-6f ); break; case 4: p->setChannelLock( 5.f ); p->unsetChannelLock(); } }
  if( auto p = dynamic_cast<om::PointSourceWithDiffuseness *>( o.get() ) ) p->setDiffuseness( fl() );
  if( auto p = dynamic_cast<om::PointSourceExtent *>( o.get() ) ) { p->setWidth( fl() ); p->setHeight( fl() ); p->setDepth( fl() ); }
  if( auto p = dynamic_cast<om::PlaneWave *>( o.get() ) ) { p->setIncidenceAzimuth( fl() ); p->setIncidenceElevation( fl() ); p->setReferenceDistance( fl() ); }
  if( auto p = dynamic_cast<om::ChannelObject *>( o.get() ) )
  {
    p->setDiffuseness( fl() ); om::ChannelObject::OutputChannelContainer c( p->numberOfChannels() ); int const k = val( a++, 4 );
    for( std::size_t i = 0; i < c.size(); ++i ) { if( k == 0 ) c[ i ] = { "M+030" }; else if( k == 1 ) c[ i ] = {}; else if( k == 2 ) c[ i ] = { "U-110", "M_SC", "7" }; else for( std::size_t j = 0; j < i; ++j ) c[ i ].push_back( "@" + std::to_string( 10 * i + j ) ); }
    p->setOutputChannels( c );
  }
  if( auto p = dynamic_cast<Reverb *>( o.get() ) )
  {
    std::size_t const n = std::vector<std::size_t>{ 0, 1, 2, 3 }[ (std::size_t)val( a++, 4 ) ]; p->setNumberOfDiscreteReflections( n ); int const nb = val( a++, 4 ); float const x = fl();
    for( std::size_t k = 0; k < n; ++k )
    {
      auto & r = p->discreteReflection( k ); r.setPosition( x, (float)k, -1.f / (float)( k + 3 ) ); r.setDelay( 0.01f * (float)( k + 1 ) ); r.setLevel( 1.f / (float)( k + 3 ) );
      visr::rbbl::BiquadCoefficientList<float> bl( (std::size_t)( nb == 3 ? 10 : nb ) ); for( std::size_t b = 0; b < bl.size(); ++b ) bl[ b ] = visr::rbbl::BiquadCoefficient<float>( 1.f / 3.f + (float)b, (float)k, -0.1f, 0.5f / (float)( k + 1 ), 0.25f ); r.setReflectionFilters( bl );
    }
    p->setLateReverbOnset( fl() ); float const y = fl(); Reverb::LateReverbCoeffs l, at, d; for( std::size_t k = 0; k < l.size(); ++k ) { l[ k ] = y; at[ k ] = (float)k / 7.f; d[ k ] = -1e-5f * (float)k; } l[ 8 ] = 1.f / 3.f; p->setLateReverbLevels( l ); p->setLateReverbAttackTimes( at ); p->setLateReverbDecayCoeffs( d );
  }
  return o;
}
// number of attributes and values per attribute of a type
inline std::vector<int> attributes( int typeIdx ) { std::vector<int> n; makeObject( typeIdx, 1, [&]( int k, int c ) { n.resize( (std::size_t)k + 1 ); n[ (std::size_t)k ] = c; return 0; } ); return n; }
inline std::string encode( om::ObjectVector const & v ) { std::ostringstream s; om::ObjectVectorParser::encodeObjectVector( v, s ); return s.str(); }
// One attribute, or two, deviating from the default values.
inline std::unique_ptr<om::Object> chooseObject( vx::Chooser & c, int type, unsigned id, int deviations )
{
  auto const n = attributes( type ); std::vector<int> v( n.size(), 0 );
  for( int d = 0; d < deviations; ++d ) { std::size_t const k = (std::size_t)c.choose( (int)n.size(), "attribute" ); v[ k ] = c.choose( n[ k ], "value" ); }
  return makeObject( type, id, [&]( int k, int ) { return v[ (std::size_t)k ]; } );
}
