#include <vf.hpp>
#include <osmium/osm/meta.hpp>
#include <osmium/handler/range_from_history.hpp>
using namespace Osmium::OSM;
// next handler: counts what it gets
struct Next : public Osmium::Handler::Base {
    u64 nodes, ways, relations, other; const void* last;
    Next() : Osmium::Handler::Base(), nodes(0), ways(0), relations(0), other(0), last(0) {}
    void init(Meta&) { ++other; }
    void before_nodes() { ++other; } void after_nodes() { ++other; }
    void before_ways() { ++other; } void after_ways() { ++other; }
    void before_relations() { ++other; } void after_relations() { ++other; }
    void node(const shared_ptr<Node>& o) { ++nodes; last = o.get(); }
    void way(const shared_ptr<Way>& o) { ++ways; last = o.get(); }
    void relation(const shared_ptr<Relation>& o) { ++relations; last = o.get(); }
    void area(const shared_ptr<Area>&) { ++other; }
    void final() { ++other; }
};
typedef Osmium::Handler::RangeFromHistory<Next> H;
static i64 start(u64 i) { return vf_i64s("timestamp", i); }
static i64 end(u64 i) { return (vf_uf1("has end", i) & 1) ? vf_i64s("endtime", i) : 0; }
// valid somewhere in [from, to]
static bool wanted(i64 s, i64 e, i64 from, i64 to) { return s <= to && (e == 0 || e >= from); }
template <class T> static void make(T& o, u64 i) {
    o.id(vf_i64s("id", i)); o.version(i32(vf_uf1("version", i))); o.changeset(vf_i32s("changeset", i)); o.uid(vf_i32s("uid", i)); o.visible(vf_uf1("visible", i) & 1);
    o.timestamp(start(i)); o.endtime(end(i));
}
template <class T> static bool same(const T& o, u64 i) {
    return o.id() == vf_i64s("id", i) && o.version() == i32(vf_uf1("version", i)) && o.changeset() == vf_i32s("changeset", i) && o.uid() == vf_i32s("uid", i) && o.visible() == ((vf_uf1("visible", i) & 1) != 0)
        && o.timestamp() == start(i) && o.endtime() == end(i);
}
HARNESS(history) {
    Next next; i64 from = vf_in_i64("from"), to = vf_in_i64("to");
    H h(next, from, to);
    u64 n = vf_count("n", 10);
    for (u64 i = 0; i < n; ++i) {
        u64 nn = next.nodes, nw = next.ways, nr = next.relations, no = next.other, what = vf_pick("event", i, 3);
        bool w = wanted(start(i), end(i), from, to);
        if (what == 0) {
            shared_ptr<Node> o = make_shared<Node>(); make(*o, i); o->position(Position(vf_i32s("x", i), vf_i32s("y", i)));
            h.node(o);
            vf_ensure("a node is forwarded once exactly if it is valid in the range", next.nodes == nn + w && next.ways == nw && next.relations == nr && next.other == no);
            if (w) { vf_ensure("the node itself is forwarded", next.last == o.get()); vf_cover("node in range"); } else vf_cover("node out of range");
            vf_ensure("the node is not changed", same(*o, i) && o->position().x() == vf_i32s("x", i) && o->position().y() == vf_i32s("y", i));
        } else if (what == 1) {
            shared_ptr<Way> o = make_shared<Way>(); make(*o, i);
            h.way(o);
            vf_ensure("a way is forwarded once exactly if it is valid in the range", next.nodes == nn && next.ways == nw + w && next.relations == nr && next.other == no);
            if (w) vf_ensure("the way itself is forwarded", next.last == o.get());
            vf_ensure("the way is not changed", same(*o, i) && o->nodes().empty());
        } else {
            shared_ptr<Relation> o = make_shared<Relation>(); make(*o, i);
            h.relation(o);
            vf_ensure("a relation is forwarded once exactly if it is valid in the range", next.nodes == nn && next.ways == nw && next.relations == nr + w && next.other == no);
            if (w) vf_ensure("the relation itself is forwarded", next.last == o.get());
            vf_ensure("the relation is not changed", same(*o, i) && o->members().size() == 0);
        }
    }
}
HARNESS(others) {
    Next next; H h(next, vf_in_i64("from"), vf_in_i64("to"));
    u64 n = vf_count("n", 10); Meta meta;
    for (u64 i = 0; i < n; ++i) {
        u64 no = next.other, what = vf_pick("event", i, 8);
        if (what == 0) h.init(meta); else if (what == 1) h.before_nodes(); else if (what == 2) h.after_nodes(); else if (what == 3) h.before_ways();
        else if (what == 4) h.after_ways(); else if (what == 5) h.before_relations(); else if (what == 6) h.after_relations(); else h.final();
        vf_ensure("all other events are forwarded once", next.other == no + 1 && next.nodes == 0 && next.ways == 0 && next.relations == 0);
    }
}
