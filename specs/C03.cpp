#include <vf.hpp>
#include <osmium/osm/bounds.hpp>
#include <osmium/handler/find_bbox.hpp>
using namespace Osmium::OSM;
static Position pos(u64 i) { return Position((int32_t)vf_i32s("x", i), (int32_t)vf_i32s("y", i)); }
static const i64 INV = 0x7fffffff;

// specification: minimum and maximum over the defined positions of the first K
struct Spec {
    u64 any(u64 K) { auto f = [](u64 acc, u64 i) -> u64 { return acc || pos(i).defined(); }; return vf_fold(K, 0, f); }
    i64 minx(u64 K) { auto f = [](u64 acc, u64 i) -> u64 { return pos(i).defined() && pos(i).x() < (i64)acc ? (u64)(i64)pos(i).x() : acc; }; return (i64)vf_fold(K, (u64)INV, f); }
    i64 miny(u64 K) { auto f = [](u64 acc, u64 i) -> u64 { return pos(i).defined() && pos(i).y() < (i64)acc ? (u64)(i64)pos(i).y() : acc; }; return (i64)vf_fold(K, (u64)INV, f); }
    i64 maxx(u64 K) { auto f = [](u64 acc, u64 i) -> u64 { return pos(i).defined() && pos(i).x() > (i64)acc ? (u64)(i64)pos(i).x() : acc; }; return (i64)vf_fold(K, (u64)-(INV + 1), f); }
    i64 maxy(u64 K) { auto f = [](u64 acc, u64 i) -> u64 { return pos(i).defined() && pos(i).y() > (i64)acc ? (u64)(i64)pos(i).y() : acc; }; return (i64)vf_fold(K, (u64)-(INV + 1), f); }
};
template <class B> static bool box_is(B& b, Spec& s, u64 K) {
    bool any = s.any(K) != 0;
    i64 x0 = s.minx(K), y0 = s.miny(K), x1 = s.maxx(K), y1 = s.maxy(K);
    if (!any) return !b.defined() && x0 == INV && y0 == INV && x1 == -(INV + 1) && y1 == -(INV + 1);
    return b.defined() && b.bottom_left().x() == x0 && b.bottom_left().y() == y0 && b.top_right().x() == x1 && b.top_right().y() == y1
        && x0 <= x1 && y0 <= y1 && x1 < INV && y1 < INV;
}
static bool contains(const Bounds& b, const Position& p) {
    return b.bottom_left().x() <= p.x() && p.x() <= b.top_right().x() && b.bottom_left().y() <= p.y() && p.y() <= b.top_right().y();
}

// A box extended with n positions, any n.
HARNESS(extend_all) {
    u64 n = vf_size("n", 6), k = vf_in_u64("k");
    vf_assume(k < n);
    Bounds b;
    vf_ensure("an empty box is undefined", !b.defined());
    Spec s;
    auto inv = [&](u64 K) -> bool { return box_is(b, s, K) && (K <= k || !pos(k).defined() || (b.defined() && contains(b, pos(k)))); };
    vf_inv(inv);
    for (u64 i = 0; i < n; ++i) {
        Bounds& r = b.extend(pos(i));
        vf_ensure("extend returns the box itself", vf_same_obj(&r, &b));
    }
    vf_ensure("box is defined exactly if some position was defined", b.defined() == (s.any(n) != 0));
    vf_ensure("corners are minimum and maximum over the defined positions", box_is(b, s, n));
    if (pos(k).defined()) {
        vf_ensure("box contains every defined position", b.defined() && contains(b, pos(k)));
        vf_cover("defined position");
    }
}
// The handler sees n nodes.
HARNESS(find_bbox) {
    u64 n = vf_size("n", 6);
    Osmium::Handler::FindBbox h;
    Spec s;
    Bounds b;
    auto inv = [&](u64 K) -> bool { Bounds b = h.bounds(); return box_is(b, s, K); };
    vf_inv(inv);
    for (u64 i = 0; i < n; ++i) {
        shared_ptr<Node> node = make_shared<Node>();
        node->id(vf_i64s("id", i));
        node->position(pos(i));
        h.node(node);
        vf_ensure("the handler does not change the node", node->position() == pos(i) && node->id() == vf_i64s("id", i));
    }
    bool stopped = false;
    try { h.after_nodes(); } catch (Osmium::Handler::StopReading&) { stopped = true; }
    vf_ensure("the handler stops reading after the nodes", stopped);
    b = h.bounds();
    vf_ensure("the handler reports the box of all node positions", box_is(b, s, n));
    vf_cover("handler");
}
