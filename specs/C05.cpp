#include <vf.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
using namespace Osmium::OSM;

// A store: what it holds when read is arbitrary; what is written to it is recorded.
struct Store {
    const char* x; const char* y; u64 sets; u64 id; Position value;
    Store(const char* a, const char* b) : x(a), y(b), sets(0), id(0), value() {}
    void set(const u64 i, const Position v) { ++sets; id = i; value = v; }
    Position at(u64 i) const { return Position((i32)vf_i32s(x, i), (i32)vf_i32s(y, i)); }
    const Position operator[](const u64 i) const { return at(i); }
};
typedef Osmium::Handler::CoordinatesForWays<Store, Store> H;
static const i64 LOWEST = (i64)(1ULL << 63);
static Position stored(const Store& p, const Store& n, i64 ref) { return ref >= 0 ? p.at(ref) : n.at((u64)-ref); }

HARNESS(nodes) {
    Store pos("px", "py"), neg("nx", "ny");
    H h(pos, neg);
    u64 n = vf_size("n", 8);
    VF_INV(pos.sets + neg.sets == K);
    for (u64 i = 0; i < n; ++i) {
        i64 id = vf_i64s("id", i); vf_assume(id != LOWEST);
        shared_ptr<Node> node = make_shared<Node>();
        node->id(id); node->position(Position(vf_i32s("x", i), vf_i32s("y", i)));
        u64 p = pos.sets, m = neg.sets;
        h.node(node);
        vf_ensure("a node is stored once, in the store for the sign of its id", pos.sets == p + (id >= 0) && neg.sets == m + (id < 0));
        const Store& s = id >= 0 ? pos : neg;
        vf_ensure("the location is stored under the id without its sign", s.id == (u64)(id >= 0 ? id : -id));
        vf_ensure("the stored location is that of the node", s.value.x() == vf_i32s("x", i) && s.value.y() == vf_i32s("y", i));
        vf_ensure("the node does not change", node->id() == id && node->position().x() == vf_i32s("x", i) && node->position().y() == vf_i32s("y", i));
        if (id >= 0) vf_cover("positive id"); else vf_cover("negative id");
    }
    vf_ensure("as many locations as nodes are stored", pos.sets + neg.sets == n);
}
HARNESS(ways) {
    Store pos("px", "py"), neg("nx", "ny");
    H h(pos, neg);
    u64 n = vf_size("n", 8), k = vf_engine() ? vf_in_u64("k") : (n ? vf_in_u64("k") % n : 0);
    shared_ptr<Way> way = make_shared<Way>();
    way->id(vf_in_i64("way id"));
    for (u64 i = 0; i < n; ++i) {
        i64 ref = vf_i64s("ref", i); vf_assume(ref != LOWEST);
        way->nodes().add(WayNode(ref, Position(vf_i32s("ox", i), vf_i32s("oy", i))));
    }
    VF_INV(k >= K ? way->nodes().begin()[k].ref() == vf_i64s("ref", k) : way->nodes().begin()[k].position() == stored(pos, neg, vf_i64s("ref", k)));
    h.way(way);
    vf_ensure("the number of way nodes does not change", way->nodes().end() - way->nodes().begin() == n);
    vf_ensure("nothing is written to the stores", pos.sets == 0 && neg.sets == 0);
    if (k < n) {
        const WayNode& w = way->nodes().begin()[k];
        i64 ref = vf_i64s("ref", k); vf_assume(ref != LOWEST);
        vf_ensure("every way node keeps its reference", w.ref() == ref);
        vf_ensure("every way node gets the location stored for its reference", w.position() == stored(pos, neg, ref));
        if (k == n - 1) vf_cover("last node");
        if (ref < 0) vf_cover("negative reference");
    }
}
HARNESS(lookup) {
    Store pos("px", "py"), neg("nx", "ny");
    H h(pos, neg);
    i64 ref = vf_in_i64("ref"); vf_assume(ref != LOWEST);
    vf_ensure("a single lookup uses the store for the sign of the id", h.get_node_pos(ref) == stored(pos, neg, ref));
    vf_ensure("nothing is written to the stores", pos.sets == 0 && neg.sets == 0);
}
