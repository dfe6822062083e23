// FP: ufx
#include <vf.hpp>
#include <osmium/geometry/haversine.hpp>
#include <cmath>
using namespace Osmium::OSM;
namespace Hav = Osmium::Geometry::Haversine;
static Position pos(u64 i) { return Position((i32)vf_i32s("x", i), (i32)vf_i32s("y", i)); }
#ifdef VF_NATIVE
// great circle distance by an independent formula
static bool near_true(const Position& a, const Position& b, double d) {
    const long double R = 6372797.560856L, q = 0.017453292519943295769236907684886L;
    long double p = a.lat() * q, s = b.lat() * q, l = ((long double)b.lon() - a.lon()) * q;
    long double y = sqrtl(powl(cosl(s) * sinl(l), 2) + powl(cosl(p) * sinl(s) - sinl(p) * cosl(s) * cosl(l), 2)), x = sinl(p) * sinl(s) + cosl(p) * cosl(s) * cosl(l);
    long double t = R * atan2l(y, x);
    return fabsl(t - d) <= 0.2L + t * 1e-9L;
}
#endif
HARNESS(positions) {
    Position a(pos(0)), b(pos(1));
    double d = Hav::distance(a, b);
    vf_ensure("a distance is never negative", !(d < 0));
    vf_ensure("the distance does not depend on the order of the points", vf_d2bits(Hav::distance(b, a)) == vf_d2bits(d) || (d != d));
    vf_ensure("the distance of a point from itself is zero", Hav::distance(a, a) == 0);
    vf_ensure("the points are not changed", a == pos(0) && b == pos(1));
    vf_cover("distance");
}
HARNESS(degrees) {
    double x = vf_in_double("x"), y = vf_in_double("y"), u = vf_in_double("u"), v = vf_in_double("v");
    vf_assume(x >= -1000 && x <= 1000 && y >= -1000 && y <= 1000 && u >= -1000 && u <= 1000 && v >= -1000 && v <= 1000);
    double d = Hav::distance(x, y, u, v);
    vf_ensure("a distance is never negative", !(d < 0));
    vf_ensure("the distance does not depend on the order of the points", vf_d2bits(Hav::distance(u, v, x, y)) == vf_d2bits(d) || (d != d));
    vf_ensure("the distance of a point from itself is zero", Hav::distance(x, y, x, y) == 0);
    vf_cover("distance");
}
HARNESS(way_length) {
    u64 n = vf_size("n", 8);
    vf_assume(n <= 0xffffffffULL);
    WayNodeList l;
    for (u64 i = 0; i < n; ++i) l.add(WayNode(vf_i64s("ref", i), pos(i)));
    auto add = [&](u64 acc, u64 i) -> u64 { return vf_d2bits(vf_bits2d(acc) + Hav::distance(pos(i), pos(i + 1))); };
    auto sum = [&](u64 K) -> u64 { return vf_fold(K, vf_d2bits(0.0), add); };
    vf_val(sum);
    double d = Hav::distance(l);
    if (n < 2) vf_ensure("the length of a way of fewer than two nodes is zero", d == 0);
    else { vf_ensure("the length of a way is the sum of the distances between consecutive nodes", vf_d2bits(d) == vf_fold(n - 1, vf_d2bits(0.0), add)); vf_cover("length"); }
    vf_ensure("the way is not changed", l.size() == (osm_sequence_id_t)n);
}
#ifdef VF_NATIVE
BOUNDED(formula) {
    i32 x = vf_in_i32("x"), y = vf_in_i32("y"), u = vf_in_i32("u"), v = vf_in_i32("v");
    Position a(i32(x % 1800000000), i32(y % 900000001)), b(i32(u % 1800000000), i32(v % 900000001));
    vf_ensure("the distance is the great circle distance", near_true(a, b, Hav::distance(a, b)));
    Position c(a.x(), i32(a.y() / 2 + (v % 1000))); 
    vf_ensure("the distance is the great circle distance", near_true(a, c, Hav::distance(a, c)));
}
#endif
