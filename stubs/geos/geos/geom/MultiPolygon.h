// Assumed contract of the GEOS class the area header names: an opaque polymorphic geometry that can be cloned. A check may give it data and a
// hook for its destruction.
#ifndef VF_GEOS_MP
#define VF_GEOS_MP
#ifndef VF_GEOS_DTOR
#define VF_GEOS_DTOR
#define VF_GEOS_DATA
#endif
namespace geos { namespace geom {
    struct Geometry { virtual ~Geometry() {} virtual Geometry* clone() const { return new Geometry(*this); } };
    struct MultiPolygon : Geometry { VF_GEOS_DATA ~MultiPolygon() { VF_GEOS_DTOR } MultiPolygon* clone() const { return new MultiPolygon(*this); } };
} }
#endif
