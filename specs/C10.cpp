#include <vf.hpp>
#include <osmium/osm/way.hpp>
using namespace Osmium::OSM;
static i64 ref(u64 i) { return vf_i64s("ref", i); }
static Position pos(u64 i) { return Position((i32)vf_i32s("x", i), (i32)vf_i32s("y", i)); }
static bool located(u64 i) { return (vf_uf1("how", i) & 1) != 0; }
static bool is(const WayNode& w, u64 i) { return w.ref() == ref(i) && (located(i) ? w.position() == pos(i) : !w.has_position()); }
static u64 index(u64 n) { return vf_engine() ? vf_in_u64("k") : (n ? vf_in_u64("k") % n : 0); }
// every way of adding a node
static void add(Way& w, u64 i) {
    u64 how = vf_uf1("how", i);
    WayNodeList* r = &w.nodes();
    if (how & 1) { WayNode n(ref(i), pos(i)); if (how & 2) r = &w.nodes().add(n); else r = &w.nodes().push_back(n); }
    else if (how & 4) w.add_node(ref(i));
    else if (how & 2) r = &w.nodes().add(ref(i)); else r = &w.nodes().push_back(ref(i));
    vf_ensure("adding a node returns the list", vf_same_obj(r, &w.nodes()));
}
static void fill(Way& w, u64 n) { for (u64 i = 0; i < n; ++i) add(w, i); }

HARNESS(add_all) {
    u64 n = vf_size("n", 8), k = index(n); vf_assume(n < 0x7fffffff);
    Way w; w.id(vf_in_i64("id")); i64 id = w.id();
    vf_ensure("a new way has no nodes", w.nodes().empty() && w.nodes().size() == 0 && !w.nodes().has_position());
    VF_INV(w.nodes().end() - w.nodes().begin() == K);
    VF_INV(k >= K || is(w.nodes().begin()[k], k));
    VF_INV(K == 0 || is(w.nodes().begin()[K - 1], K - 1));
    VF_INV(K == 0 || is(w.nodes().begin()[0], 0));
    fill(w, n);
    const Way& c = w;
    vf_ensure("a way has as many nodes as were added", w.nodes().size() == n && w.nodes().end() - w.nodes().begin() == n && c.nodes().end() - c.nodes().begin() == n && w.nodes().empty() == (n == 0));
    vf_ensure("adding nodes changes nothing else", w.id() == id && w.version() == 0 && w.tags().size() == 0);
    if (k < n) {
        vf_ensure("way nodes keep reference, location and order", is(w.nodes()[(int)k], k) && is(c.nodes()[(int)k], k) && is(w.nodes().begin()[k], k) && is(c.nodes().begin()[k], k) && w.get_node_id(k) == ref(k));
        vf_ensure("backward iteration gives the reverse order", is(*(w.nodes().rend() - 1 - k), k) && is(*(c.nodes().rend() - 1 - k), k) && is(*(w.nodes().rbegin() + (n - 1 - k)), k));
        vf_cover("node");
    }
    if (n) {
        vf_ensure("first and last accessors agree with the order", w.get_first_node_id() == ref(0) && w.get_last_node_id() == ref(n - 1) && is(w.nodes().front(), 0) && is(w.nodes().back(), n - 1) && is(c.nodes().front(), 0) && is(c.nodes().back(), n - 1));
        vf_ensure("a way is closed exactly if its first and last reference are equal", w.is_closed() == (ref(0) == ref(n - 1)) && w.nodes().is_closed() == w.is_closed());
        vf_ensure("a way has positions exactly if its last node has one", w.nodes().has_position() == (located(n - 1) && pos(n - 1).defined()));
        if (w.is_closed() && n > 3) vf_cover("closed");
        if (!w.is_closed()) vf_cover("open");
    }
    w.nodes().clear();
    vf_ensure("clearing removes all nodes", w.nodes().empty() && w.nodes().size() == 0 && w.nodes().begin() == w.nodes().end());
}
HARNESS(add_one) {
    u64 n = vf_size("n", 8), k = index(n + 1); vf_assume(n < 0x7fffffff);
    Way w((int)(vf_in_u16("hint")));
    VF_INV(w.nodes().end() - w.nodes().begin() == K);
    VF_INV(k >= K || is(w.nodes().begin()[k], k));
    fill(w, n);
    add(w, n);
    vf_ensure("adding a node makes the way one longer", w.nodes().size() == n + 1);
    if (k <= n) { vf_ensure("adding a node keeps the others", is(w.nodes()[(int)k], k)); vf_cover("kept"); }
}
HARNESS(copy) {
    u64 n = vf_size("n", 8), k = index(n); vf_assume(n < 0x7fffffff);
    Way w;
    VF_INV(w.nodes().end() - w.nodes().begin() == K);
    VF_INV(k >= K || is(w.nodes().begin()[k], k));
    fill(w, n);
    Way c(w); WayNodeList a; a.add(7); a = w.nodes(); WayNodeList l(w.nodes());
    w.nodes().add(1);
    if (k < n) w.nodes()[(int)k].ref(5);
    vf_ensure("copying a way copies all nodes", c.nodes().size() == n && a.size() == n && l.size() == n);
    if (k < n) { vf_ensure("copying a way copies all nodes", is(c.nodes()[(int)k], k) && is(a[(int)k], k) && is(l[(int)k], k)); vf_cover("copied"); }
}
HARNESS(way_node) {
    WayNode a(ref(0), pos(0)), b(ref(1), pos(1));
    vf_ensure("a way node has the reference and location it was made with", a.ref() == ref(0) && a.position() == pos(0) && a.has_position() == pos(0).defined());
    vf_ensure("way nodes compare by reference", (a == b) == (ref(0) == ref(1)) && (a != b) == !(a == b) && (a < b) == (ref(0) < ref(1)));
    WayNode& r = a.ref(ref(2));
    vf_ensure("setting the reference keeps the location", vf_same_obj(&r, &a) && a.ref() == ref(2) && a.position() == pos(0));
    WayNode& s = a.position(pos(3));
    vf_ensure("setting the location keeps the reference", vf_same_obj(&s, &a) && a.ref() == ref(2) && a.position() == pos(3));
    vf_cover("way node");
}
