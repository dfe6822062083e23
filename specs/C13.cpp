#include <vf.hpp>
#include <osmium/osm/meta.hpp>
#include <osmium/handler.hpp>
using namespace Osmium::OSM;
// a handler that records the last event with its argument and its place in the common order of events
static u64 g_clock;
struct Rec : public Osmium::Handler::Base {
    u64 count, what, time; const void* arg; int level;
    Rec() : Osmium::Handler::Base(), count(0), what(99), time(0), arg(0), level(0) {}
    void ev(u64 w, const void* a = 0) { ++count; what = w; arg = a; time = ++g_clock; }
    void init(Meta& m) { ev(0, &m); }
    void before_nodes() { ev(1); } void node(const shared_ptr<Node>& o) { ev(2, o.get()); } void after_nodes() { ev(3); }
    void before_ways() { ev(4); } void way(const shared_ptr<Way>& o) { ev(5, o.get()); } void after_ways() { ev(6); }
    void before_relations() { ev(7); } void relation(const shared_ptr<Relation>& o) { ev(8, o.get()); } void after_relations() { ev(9); }
    void area(const shared_ptr<Area>& o) { ev(10, o.get()); }
    void final() { ev(11); }
    void set_debug_level(int d) { level = d; }
};
struct Args {
    Meta meta; shared_ptr<Node> n; shared_ptr<Way> w; shared_ptr<Relation> r; shared_ptr<Area> a;
    Args() : meta(), n(make_shared<Node>()), w(make_shared<Way>()), r(make_shared<Relation>()), a() {}
    const void* of(u64 e) const { return e == 0 ? (const void*)&meta : e == 2 ? (const void*)n.get() : e == 5 ? (const void*)w.get() : e == 8 ? (const void*)r.get() : (const void*)0; }
};
template <class H> static void send(const H& h, Args& a, u64 e) {
    if (e == 0) h.init(a.meta); else if (e == 1) h.before_nodes(); else if (e == 2) h.node(a.n); else if (e == 3) h.after_nodes();
    else if (e == 4) h.before_ways(); else if (e == 5) h.way(a.w); else if (e == 6) h.after_ways(); else if (e == 7) h.before_relations();
    else if (e == 8) h.relation(a.r); else if (e == 9) h.after_relations(); else if (e == 10) h.area(a.a); else h.final();
}
HARNESS(forward) {
    Rec r; Osmium::Handler::Forward<Rec> h(r); Args a; g_clock = 0;
    u64 n = vf_count("n", 10);
    for (u64 i = 0; i < n; ++i) {
        u64 e = vf_pick("event", i, 12), c = r.count, t = g_clock;
        send(h, a, e);
        vf_ensure("an event is forwarded once", r.count == c + 1 && g_clock == t + 1);
        vf_ensure("it is forwarded as the same event", r.what == e);
        vf_ensure("it is forwarded with the same argument", r.arg == a.of(e));
        if (e == 10) vf_cover("area"); if (e == 2) vf_cover("node");
    }
    vf_ensure("as many events are forwarded as received", r.count == n);
}
HARNESS(forward_debug) {
    Rec r; Osmium::Handler::Forward<Rec> h(r); int d = vf_in_i32("d");
    h.set_debug_level(d);
    vf_ensure("setting the debug level is no event and is passed on", r.count == 0 && r.level == d);
}
HARNESS(sequence) {
    Rec r, s; Osmium::Handler::Sequence<Rec, Rec> h(r, s); Args a; g_clock = 0;
    u64 n = vf_count("n", 10);
    for (u64 i = 0; i < n; ++i) {
        u64 e = vf_pick("event", i, 12), c = r.count, d = s.count, t = g_clock;
        send(h, a, e);
        vf_ensure("an event reaches the first handler once", r.count == c + 1 && r.what == e && r.arg == a.of(e));
        vf_ensure("an event reaches the second handler once", s.count == d + 1 && s.what == e && s.arg == a.of(e));
        vf_ensure("the first handler gets it before the second", r.time == t + 1 && s.time == t + 2 && g_clock == t + 2);
        if (e == 10) vf_cover("area"); if (e == 11) vf_cover("final");
    }
    vf_ensure("both handlers get as many events as were received", r.count == n && s.count == n);
}
HARNESS(sequence_debug) {
    Rec r, s; Osmium::Handler::Sequence<Rec, Rec> h(r, s); int d = vf_in_i32("d");
    h.set_debug_level(d);
    vf_ensure("setting the debug level is no event and is passed on", r.count == 0 && s.count == 0 && r.level == d && s.level == d);
}
HARNESS(nested) {
    Rec r, s, u; Osmium::Handler::Sequence<Rec, Rec> q(r, s); Osmium::Handler::Forward<Osmium::Handler::Sequence<Rec, Rec> > f(q);
    Osmium::Handler::Sequence<Osmium::Handler::Forward<Osmium::Handler::Sequence<Rec, Rec> >, Rec> h(f, u); Args a; g_clock = 0;
    u64 e = vf_pick("event", 0, 12);
    send(h, a, e);
    vf_ensure("nested handlers relay in order", r.time == 1 && s.time == 2 && u.time == 3 && g_clock == 3);
    vf_ensure("nested handlers relay the same event", r.what == e && s.what == e && u.what == e && r.arg == a.of(e) && s.arg == a.of(e) && u.arg == a.of(e));
}
HARNESS(base) {
    Osmium::Handler::Base b; Args a; g_clock = 0;
    b.init(a.meta); b.before_nodes(); b.node(a.n); b.after_nodes(); b.before_ways(); b.way(a.w); b.after_ways(); b.before_relations(); b.relation(a.r); b.after_relations(); b.area(a.a); b.final();
    vf_ensure("the base handler ignores all events", a.n->id() == 0 && a.w->nodes().empty() && a.r->members().size() == 0);
}
