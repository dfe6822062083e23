// FP: real
#include <vf.hpp>
#include <osmium/osm/position.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way_node.hpp>
#include <cmath>
using namespace Osmium::OSM;
static double absd(double d) { return d < 0 ? -d : d; }

// Every stored coordinate survives being read in degrees and set again.
HARNESS(roundtrip) {
    int32_t x = vf_in_i32("x"), y = vf_in_i32("y"), a = vf_in_i32("a"), b = vf_in_i32("b");
    Position p(x, y);
    vf_ensure("constructor from integers stores its arguments", p.x() == x && p.y() == y);
    Position q(p.lon(), p.lat());
    vf_ensure("position built from the degrees of a position equals it", q.x() == x && q.y() == y && q == p);
    Position r(a, b);
    Position& r1 = r.lon(p.lon());
    vf_ensure("setting the longitude restores x and leaves y alone", r.x() == x && r.y() == b);
    Position& r2 = r.lat(p.lat());
    vf_ensure("setting the latitude restores y and leaves x alone", r.x() == x && r.y() == y);
    Position s(a, b);
    Position& s1 = s.x(x);
    vf_ensure("setting x leaves y alone", s.x() == x && s.y() == b);
    Position& s2 = s.y(y);
    vf_ensure("setting y leaves x alone", s.x() == x && s.y() == y);
    vf_ensure("setters return the position itself", vf_same_obj(&r, &r1) && vf_same_obj(&r, &r2) && vf_same_obj(&s, &s1) && vf_same_obj(&s, &s2));
    Position l((int64_t)x, (int64_t)y);
    vf_ensure("constructor from wide integers stores values that fit", l.x() == x && l.y() == y);
    vf_cover("round trip");
}
HARNESS(roundtrip_node) {
    int32_t x = vf_in_i32("x"), y = vf_in_i32("y"), a = vf_in_i32("a"), b = vf_in_i32("b");
    Node n, m;
    vf_ensure("a new node has no position", !n.position().defined() && n.position().x() == Position::invalid && n.position().y() == Position::invalid);
    n.position(Position(x, y));
    vf_ensure("node keeps the position it was given", n.position().x() == x && n.position().y() == y);
    m.position(Position(a, b));
    m.lon(n.lon());
    vf_ensure("node longitude sets x only", m.position().x() == x && m.position().y() == b);
    m.lat(n.lat());
    vf_ensure("node latitude sets y only", m.position().x() == x && m.position().y() == y);
    vf_cover("node");
}
HARNESS(roundtrip_waynode) {
    int32_t x = vf_in_i32("x"), y = vf_in_i32("y");
    osm_object_id_t ref = vf_in_i64("ref"), ref2 = vf_in_i64("ref2");
    WayNode u(ref);
    vf_ensure("a way node without position is undefined", u.ref() == ref && !u.has_position());
    WayNode w(ref, Position(x, y));
    vf_ensure("way node keeps reference and position", w.ref() == ref && w.position().x() == x && w.position().y() == y);
    u.position(Position(w.lon(), w.lat()));
    vf_ensure("way node position survives conversion to degrees", u.position().x() == x && u.position().y() == y && u.ref() == ref);
    vf_ensure("way node has a position exactly if it is defined", w.has_position() == (x != Position::invalid && y != Position::invalid));
    w.ref(ref2);
    vf_ensure("changing the reference keeps the position", w.ref() == ref2 && w.position().x() == x && w.position().y() == y);
    const WayNode& cw = w;
    vf_ensure("const and mutable accessor agree", cw.position().x() == x && cw.position().y() == y);
    vf_cover("way node");
}
// Degrees are stored as the nearest multiple of 1e-7 (up to the rounding of one double multiplication).
HARNESS(nearest) {
    double d = vf_in_double("d"), e = vf_in_double("e");
    vf_assume(d > -214.7 && d < 214.7 && e > -214.7 && e < 214.7);
    Position p(d, e);
    vf_ensure("longitude is stored as the nearest multiple of 1e-7 degree", absd((double)p.x() - d * 1e7) <= 0.5000005);
    vf_ensure("latitude is stored as the nearest multiple of 1e-7 degree", absd((double)p.y() - e * 1e7) <= 0.5000005);
    Position q(1, 2);
    q.lon(d);
    vf_ensure("lon() stores the nearest multiple of 1e-7 degree", q.x() == p.x() && q.y() == 2);
    q.lat(e);
    vf_ensure("lat() stores the nearest multiple of 1e-7 degree", q.y() == p.y() && q.x() == p.x());
    Node n;
    n.lon(d); n.lat(e);
    vf_ensure("node stores the nearest multiple of 1e-7 degree", n.position().x() == p.x() && n.position().y() == p.y());
    vf_cover("degrees");
}
HARNESS(degrees) {
    int32_t x = vf_in_i32("x"), y = vf_in_i32("y");
    Position p(x, y);
    vf_ensure("longitude in degrees is x * 1e-7", absd(p.lon() * 1e7 - (double)x) <= 0.000005);
    vf_ensure("latitude in degrees is y * 1e-7", absd(p.lat() * 1e7 - (double)y) <= 0.000005);
    WayNode w(1, p);
    vf_ensure("way node longitude in degrees is x * 1e-7", absd(w.lon() * 1e7 - (double)x) <= 0.000005);
    vf_ensure("way node latitude in degrees is y * 1e-7", absd(w.lat() * 1e7 - (double)y) <= 0.000005);
    Node n; n.position(p);
    vf_ensure("node longitude in degrees is x * 1e-7", absd(n.lon() * 1e7 - (double)x) <= 0.000005);
    vf_ensure("node latitude in degrees is y * 1e-7", absd(n.lat() * 1e7 - (double)y) <= 0.000005);
}
HARNESS(defined_equal) {
    int32_t x = vf_in_i32("x"), y = vf_in_i32("y"), a = vf_in_i32("a"), b = vf_in_i32("b");
    Position p(x, y), q(a, b), u;
    vf_ensure("the default position is undefined", !u.defined());
    vf_ensure("a position is defined exactly if both coordinates are valid", p.defined() == (x != 0x7fffffff && y != 0x7fffffff));
    vf_ensure("positions are equal exactly if both coordinates are", (p == q) == (x == a && y == b) && (p != q) == !(x == a && y == b));
}
