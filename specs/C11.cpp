#include <vf.hpp>
#include <osmium/osm/meta.hpp>
#include <osmium/handler/endtime.hpp>
#include <vector>
#include <type_traits>
using namespace Osmium::OSM;
// next handler: what came last, with the end time it had when it came
struct Next : public Osmium::Handler::Base {
    u64 count, other; u64 what; const void* last; i64 end;
    Next() : Osmium::Handler::Base(), count(0), other(0), what(99), last(0), end(0) {}
    void init(Meta&) { ++other; what = 10; }
    void before_nodes() { ++other; what = 11; } void after_nodes() { ++other; what = 12; }
    void before_ways() { ++other; what = 13; } void after_ways() { ++other; what = 14; }
    void before_relations() { ++other; what = 15; } void after_relations() { ++other; what = 16; }
    void node(const shared_ptr<Node>& o) { ++count; what = 0; last = o.get(); end = o->endtime(); }
    void way(const shared_ptr<Way>& o) { ++count; what = 1; last = o.get(); end = o->endtime(); }
    void relation(const shared_ptr<Relation>& o) { ++count; what = 2; last = o.get(); end = o->endtime(); }
    void area(const shared_ptr<Area>&) { ++other; }
    void final() { ++other; what = 17; }
};
typedef Osmium::Handler::EndTime<Next> H;
// the objects of the input
#ifdef VF_ENGINE
template <class T> struct Pool {
    T* p; boost::vf_cnt* c;
    Pool(const char* n, const char* m, u64) : p((T*)vf_new_region(sizeof(T), n)), c((boost::vf_cnt*)vf_new_region(sizeof(boost::vf_cnt), m)) {}
    T* at(u64 i) { return p + i; }
    void ref(u64 i, shared_ptr<T>& s) { s.px = p + i; s.pn = c + i; c[i].uses = 1; }
};
#else
template <class T> struct Keep { void operator()(T*) const {} };
template <class T> struct Pool {
    std::vector<T> v;
    Pool(const char*, const char*, u64 n) : v(n) {}
    T* at(u64 i) { return &v[i]; }
    void ref(u64 i, shared_ptr<T>& s) { s = shared_ptr<T>(&v[i], Keep<T>()); }
};
#endif
static i64 id(u64 i) { return vf_i64s("id", i); }
static i64 ts(u64 i) { return vf_i64s("timestamp", i); }
static void send(H& h, const shared_ptr<Node>& o) { h.node(o); } static void send(H& h, const shared_ptr<Way>& o) { h.way(o); } static void send(H& h, const shared_ptr<Relation>& o) { h.relation(o); }
static void after(H& h, Node*) { h.after_nodes(); } static void after(H& h, Way*) { h.after_ways(); } static void after(H& h, Relation*) { h.after_relations(); }
template <class T> static void one_type(u64 what) {
    u64 n = vf_count("n", 10); Next next; H h(next); Pool<T> pool("objects", "counts", n);
    T* pend = 0; u64 since = 0, taken = 0;
    VF_INV(!pend || pend->endtime() == 0);
    VF_INV(next.count == (pend ? taken - 1 : taken));
    for (u64 i = 0; i < n; ++i) {
        u64 c = next.count, ot = next.other; T* before = pend;
        if (vf_uf1("event", i) & 3) {
            T* o = pool.at(i);
            o->id(id(i)); o->timestamp(ts(i)); o->endtime(0); o->version(vf_i32s("version", i)); o->uid(vf_i32s("uid", i)); o->changeset(vf_i32s("changeset", i)); o->visible(vf_uf1("visible", i) & 1);
            i64 bid = before ? before->id() : 0, bts = before ? before->timestamp() : 0; i32 bver = before ? before->version() : 0, buid = before ? before->uid() : 0, bcs = before ? before->changeset() : 0;
            bool bvis = before ? before->visible() : false;
            { shared_ptr<T> s; pool.ref(i, s); send(h, s); }
            ++taken;
            vf_ensure("an object is forwarded exactly when its successor arrives", next.count == c + (before ? 1 : 0) && next.other == ot);
            if (before) {
                vf_ensure("the pending object itself is forwarded", next.last == before && next.what == what);
                vf_ensure("its end time is the time of the next version, or unset", next.end == (bid == id(i) ? ts(i) : 0));
                vf_ensure("the forwarded object is otherwise unchanged", before->id() == bid && before->timestamp() == bts && before->version() == bver && before->uid() == buid && before->changeset() == bcs && before->visible() == bvis);
                if (bid == id(i)) vf_cover("next version"); else vf_cover("next object");
            }
            vf_ensure("the object that arrived is unchanged", o->id() == id(i) && o->timestamp() == ts(i) && o->endtime() == 0 && o->version() == vf_i32s("version", i) && o->uid() == vf_i32s("uid", i) && o->changeset() == vf_i32s("changeset", i) && o->visible() == ((vf_uf1("visible", i) & 1) != 0));
            pend = o;
        } else {
            after(h, pend);
            vf_ensure("the pending object is forwarded before the after callback", next.count == c + (before ? 1 : 0) && (!before || next.last == before));
            vf_ensure("the last version gets no end time", !before || next.end == 0);
            vf_ensure("the after callback is forwarded once", next.other == ot + 1 && next.what == 12 + 2 * what);
            if (before) vf_cover("flush");
            pend = 0;
        }
    }
    vf_clear_inv();
    after(h, pend);
    vf_ensure("after the end everything was forwarded once", next.count == taken);
}
HARNESS(nodes) { one_type<Node>(0); }
HARNESS(ways) { one_type<Way>(1); }
HARNESS(relations) { one_type<Relation>(2); }

// all types mixed, in any order: each type is handled on its own
HARNESS(mixed) {
    u64 n = vf_count("n", 10); Next next; H h(next); Pool<Node> np("nodes", "node counts", n); Pool<Way> wp("ways", "way counts", n); Pool<Relation> rp("relations", "relation counts", n);
    Node* pn = 0; Way* pw = 0; Relation* pr = 0; u64 taken = 0;
    VF_INV(!pn || pn->endtime() == 0);
    VF_INV(!pw || pw->endtime() == 0);
    VF_INV(!pr || pr->endtime() == 0);
    VF_INV(next.count + (pn ? 1 : 0) + (pw ? 1 : 0) + (pr ? 1 : 0) == taken);
    for (u64 i = 0; i < n; ++i) {
        u64 what = vf_pick("event", i, 6), c = next.count, ot = next.other;
#define VF_TAKE(pend, pool, num) { auto before = pend; auto o = pool.at(i); o->id(id(i)); o->timestamp(ts(i)); o->endtime(0); i64 bid = before ? before->id() : 0; \
            { shared_ptr<std::remove_reference<decltype(*o)>::type> s; pool.ref(i, s); send(h, s); } ++taken; pend = o; \
            vf_ensure("an object is forwarded exactly when the next of its type arrives", next.count == c + (before ? 1 : 0) && next.other == ot && (!before || (next.last == before && next.what == num))); \
            vf_ensure("versions of other types do not set the end time", !before || next.end == (bid == id(i) ? ts(i) : 0)); }
#define VF_FLUSH(pend, num) { auto before = pend; after(h, pend); pend = 0; \
            vf_ensure("only the pending object of the type is forwarded before its after callback", next.count == c + (before ? 1 : 0) && (!before || (next.last == before && next.end == 0)) && next.other == ot + 1 && next.what == num); }
        if (what == 0) VF_TAKE(pn, np, 0)
        else if (what == 1) VF_TAKE(pw, wp, 1)
        else if (what == 2) VF_TAKE(pr, rp, 2)
        else if (what == 3) VF_FLUSH(pn, 12)
        else if (what == 4) VF_FLUSH(pw, 14)
        else VF_FLUSH(pr, 16)
    }
    vf_clear_inv();
    after(h, pn); after(h, pw); after(h, pr);
    vf_ensure("after the end every object was forwarded once", next.count == taken);
}
HARNESS(others) {
    Next next; H h(next); Meta meta; u64 n = vf_count("n", 10);
    for (u64 i = 0; i < n; ++i) {
        u64 ot = next.other, what = vf_pick("event", i, 8);
        if (what == 0) h.init(meta); else if (what == 1) h.before_nodes(); else if (what == 2) h.after_nodes(); else if (what == 3) h.before_ways();
        else if (what == 4) h.after_ways(); else if (what == 5) h.before_relations(); else if (what == 6) h.after_relations(); else h.final();
        vf_ensure("other events are forwarded once as they are", next.other == ot + 1 && next.count == 0 && next.what == 10 + what);
    }
}
