#include <vf.hpp>
#include <osmium/osm/position.hpp>
#include <osmium/osm/segment.hpp>
#include <osmium/osm/undirected_segment.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
using namespace Osmium::OSM;

template <class T> static void strict_weak(const T& a, const T& b, const T& c) {
    bool ab = a < b, ba = b < a, bc = b < c, cb = c < b, ac = a < c, ca = c < a;
    vf_ensure("no object is smaller than itself", !(a < a));
    vf_ensure("less-than is asymmetric", !(ab && ba));
    vf_ensure("less-than is transitive", !(ab && bc) || ac);
    vf_ensure("incomparability is transitive", !(!ab && !ba && !bc && !cb) || (!ac && !ca));
}
static Position pos(const char* x, const char* y) { int32_t a = vf_in_i32(x); return Position(a, vf_in_i32(y)); }

HARNESS(positions) {
    Position a = pos("ax", "ay"), b = pos("bx", "by"), c = pos("cx", "cy");
    strict_weak(a, b, c);
    vf_ensure("positions are ordered by x, then y", (a < b) == (a.x() < b.x() || (a.x() == b.x() && a.y() < b.y())));
    vf_ensure("position ordering is total", (a < b) || (b < a) || a == b);
    vf_ensure("derived comparisons of positions agree", (a > b) == (b < a) && (a <= b) == !(b < a) && (a >= b) == !(a < b) && (a != b) == !(a == b));
    vf_cover("positions");
}
HARNESS(segments) {
    Position p = pos("px", "py"), q = pos("qx", "qy"), r = pos("rx", "ry"), s = pos("sx", "sy"), t = pos("tx", "ty"), u = pos("ux", "uy");
    UndirectedSegment a(p, q), a2(q, p), b(r, s), c(t, u);
    vf_ensure("an undirected segment keeps its two end points, the smaller first",
        ((a.first() == p && a.second() == q) || (a.first() == q && a.second() == p)) && !(a.second() < a.first()));
    vf_ensure("an undirected segment does not depend on the direction it was given in", a.first() == a2.first() && a.second() == a2.second() && a == a2);
    Segment d(p, q), e(r, s);
    vf_ensure("a directed segment keeps direction", d.first() == p && d.second() == q);
    vf_ensure("segments are equal exactly if both end points are", (d == e) == (p == r && q == s) && (d != e) == !(p == r && q == s));
    vf_cover("segments");
}
HARNESS(segments_order) {
    Position p = pos("px", "py"), q = pos("qx", "qy"), r = pos("rx", "ry"), s = pos("sx", "sy"), t = pos("tx", "ty"), u = pos("ux", "uy");
    UndirectedSegment a(p, q), b(r, s), c(t, u);
    strict_weak(a, b, c);
    vf_ensure("undirected segments are ordered by first, then second position", (a < b) == (a.first() < b.first() || (a.first() == b.first() && a.second() < b.second())));
}
static i64 absid(i64 x) { return x < 0 ? -x : x; }
template <class T> static void objects(T& a, T& b, T& c) {
    i64 ia = vf_in_i64("ia"), ib = vf_in_i64("ib"), ic = vf_in_i64("ic");
    // the absolute value of the most negative 64-bit id does not exist
    vf_assume(ia != (i64)(1ULL << 63) && ib != (i64)(1ULL << 63) && ic != (i64)(1ULL << 63));
    a.id(ia); b.id(ib); c.id(ic);
    a.version((osm_version_t)vf_in_u32("va")); b.version((osm_version_t)vf_in_u32("vb")); c.version((osm_version_t)vf_in_u32("vc"));
    a.timestamp((time_t)vf_in_u32("ta")); b.timestamp((time_t)vf_in_u32("tb"));
    strict_weak(a, b, c);
    if (absid(ia) != absid(ib)) vf_ensure("objects are ordered by the absolute value of their id", (a < b) == (absid(ia) < absid(ib)));
    if (ia == ib) vf_ensure("objects of one id are ordered by version", (a < b) == (a.version() < b.version()));
    vf_cover("objects");
}
HARNESS(nodes) { Node a, b, c; objects(a, b, c); vf_ensure("greater-than agrees with less-than", (a > b) == (b < a)); }
HARNESS(ways) { Way a, b, c; objects(a, b, c); vf_ensure("greater-than agrees with less-than", (a > b) == (b < a)); }
HARNESS(relations) { Relation a, b, c; objects(a, b, c); vf_ensure("greater-than agrees with less-than", (a > b) == (b < a)); }

template <class T> static void shared() {
    typedef shared_ptr<T const> P;
    shared_ptr<T> na = make_shared<T>(), nb = make_shared<T>();
    na->id(vf_in_i64("ia")); nb->id(vf_in_i64("ib"));
    na->version((osm_version_t)vf_in_u32("va")); nb->version((osm_version_t)vf_in_u32("vb"));
    vf_assume(na->id() != (i64)(1ULL << 63) && nb->id() != (i64)(1ULL << 63));
    const T& x = *na; const T& y = *nb;
    P a = na, b = nb;
    vf_ensure("shared pointers are ordered like the objects they point to", (a < b) == (x < y) && (b < a) == (y < x));
    vf_cover("shared");
}
HARNESS(shared_nodes) { shared<Node>(); }
HARNESS(shared_ways) { shared<Way>(); }
HARNESS(shared_relations) { shared<Relation>(); }
