#include <vf.hpp>
#include "xml_env.hpp"
using namespace Osmium::OSM;
#ifdef VF_NATIVE
const char* pool[] = {"id", "1", "x", "k", "v", 0};
const char** vf_pool_user = pool;
#endif
// ---- the callback protocol, as a handler that follows it: what it saw decides what it may see next
enum { nothing, idle, in_nodes, in_ways, in_relations, finished };
struct Rec : public Osmium::Handler::Base {
    mutable u64 phase, closed, ok, events, stop, stopped, objects;
    Rec() : Osmium::Handler::Base(), phase(nothing), closed(0), ok(1), events(0), stop(~0ULL), stopped(0), objects(0) {}
    void event(bool legal, u64 next) const {
        if (!legal || stopped) ok = 0;
        phase = next;
        if (events == stop) { stopped = 1; throw Osmium::Handler::StopReading(); }
        ++events;
    }
    void init(Meta&) const { event(phase == nothing, idle); }
    void before(u64 t) const { event(phase == idle && closed != t, t); }
    void after(u64 t) const { closed = t; event(phase == t, idle); }
    void before_nodes() const { before(in_nodes); }
    void before_ways() const { before(in_ways); }
    void before_relations() const { before(in_relations); }
    void node(const shared_ptr<Node const>&) const { ++objects; event(phase == in_nodes, phase); }
    void way(const shared_ptr<Way const>&) const { ++objects; event(phase == in_ways, phase); }
    void relation(const shared_ptr<Relation const>&) const { ++objects; event(phase == in_relations, phase); }
    void after_nodes() const { after(in_nodes); }
    void after_ways() const { after(in_ways); }
    void after_relations() const { after(in_relations); }
    void final() const { if (phase == finished || (!stopped && phase != idle)) ok = 0; phase = finished; }
};
static Rec* g_rec; static u64 g_n, g_t;
static u64 phase_of(osm_object_type_t t) { return t == NODE ? (u64)in_nodes : t == WAY ? (u64)in_ways : t == RELATION ? (u64)in_relations : (u64)nothing; }
static osm_object_type_t type_of(u64 t) { return t == 0 ? NODE : t == 1 ? WAY : RELATION; }
static void done(const Rec& r) {
    vf_ensure("events come in the order of the protocol", r.ok == 1);
    vf_ensure("final is the last call", r.phase == finished);
}

// ---- any sequence of objects of any type, stopped at any event
struct Seq : public Osmium::Input::Base<Rec> {
    Seq(const Osmium::OSMFile& f, Rec& r) : Osmium::Input::Base<Rec>(f, r) {}
    void one(osm_object_type_t t) {
        this->call_after_and_before_on_handler(t);
        switch (t) {
            case NODE: this->prepare_node(); this->call_node_on_handler(); break;
            case WAY: this->prepare_way(); this->call_way_on_handler(); break;
            default: this->prepare_relation(); this->call_relation_on_handler(); break;
        }
    }
    void parse() {
        this->prepare_node(); this->prepare_way(); this->prepare_relation();   // how objects are prepared does not matter here (C27)
        Rec& r = *g_rec; u64 n = g_n; osm_object_type_t& last = m_last_object_type;
        try {
            VF_INV(K <= n);
            VF_INV(r.ok == 1 && r.stopped == 0);
            VF_INV(last == UNKNOWN || last == NODE || last == WAY || last == RELATION);
            VF_INV(r.phase == phase_of(last));
            VF_INV(last != UNKNOWN || r.closed == 0);
            VF_INV(r.objects == K);
            for (u64 i = 0; i < n; ++i) one(type_of(vf_pick("type", i, 3)));
            vf_clear_inv();
            this->call_after_and_before_on_handler(UNKNOWN);
        } catch (Osmium::Handler::StopReading&) { vf_clear_inv(); vf_cover("stopped"); }
        this->call_final_on_handler();
        if (!r.stopped) vf_ensure("every object is delivered", r.objects == n);
    }
};
HARNESS(sequence) {
    g_n = vf_size("n", 12); vf_assume(g_n < (1u << 30));
    Rec rec; g_rec = &rec; rec.stop = vf_in_u64("stop");
    Seq s(Osmium::OSMFile("x.osm"), rec);
    s.parse();
    done(rec);
    if (g_n == 0) vf_cover("empty");
}

// ---- the XML reader: from any state between two elements, one more element, then the end of the document; stopped at any event
typedef Osmium::Input::XML<Rec> Xml;
static void (*g_document)(); static int g_calls;
static bool vf_document(int len, int done) { if (!done) g_document(); return true; }
static ssize_t vf_read(int, void*, size_t) { return g_calls++ ? 0 : 1; }
static void agrees(Xml& in, const char* what) {
    const Rec& r = *g_rec;
    vf_ensure(what, r.ok == 1 && r.phase == phase_of(in.m_last_object_type) && in.m_context == Xml::context_top && in.m_ignored_depth == 0 && (in.m_last_object_type != UNKNOWN || r.closed == 0));
}
static void any_state(Xml& in) {
    Rec& r = *g_rec;
    start_("osm", g_none);
    u64 t = vf_pick("last type", 0, 4);
    in.m_last_object_type = t == 3 ? UNKNOWN : type_of(t);
    r.phase = phase_of(in.m_last_object_type); r.closed = t == 3 ? 0 : vf_pick("closed", 0, 5); r.events = vf_in_u64("events");
    in.m_in_delete_section = vf_in_bool("delete");
    if (vf_in_bool("earlier node")) in.prepare_node();
    if (vf_in_bool("earlier way")) in.prepare_way();
    if (vf_in_bool("earlier relation")) in.prepare_relation();
    r.objects = 0;
}
static void first_doc() { Xml& in = *(Xml*)g_user; start_(vf_in_bool("change") ? "osmChange" : "osm", g_none); agrees(in, "nothing happens before the first object"); end_("osm"); vf_ensure("no event without an object", g_rec->phase == nothing); }
static void element_doc() {
    Xml& in = *(Xml*)g_user; any_state(in);
    u64 k = vf_pick("element", 0, 4);
    std::string other = vf_str("other"); vf_assume(other != "node" && other != "way" && other != "relation" && other != "osm" && other != "osmChange");
    const char* n = k == 0 ? "node" : k == 1 ? "way" : k == 2 ? "relation" : other.c_str();
    start_(n, g_none);
    if (k == 1) { const char* a[] = {"ref", "1", 0}; start_("nd", a); end_("nd"); }
    if (k == 2) { const char* a[] = {"type", "node", "ref", "1", 0}; start_("member", a); end_("member"); }
    if (k < 3) { const char* a[] = {"k", "x", "v", "x", 0}; start_("tag", a); end_("tag"); }
    end_(n);
    agrees(in, "the reader follows the protocol from element to element");
    vf_ensure("an element is an object or nothing", g_rec->objects == (k < 3));
    vf_ensure("an object is in a run of its type", k > 2 || in.m_last_object_type == type_of(k));
    end_("osm");
}
static void end_doc() { Xml& in = *(Xml*)g_user; any_state(in); end_("osm"); }
static void read_xml(void (*doc)()) {
    g_document = doc; g_calls = 0; g_parsers = 0;
    Rec rec; g_rec = &rec; rec.stop = vf_in_u64("stop");
    Xml in(Osmium::OSMFile("x.osm"), rec);
    in.parse();
    done(rec);
    if (rec.stopped) vf_cover("stopped");
}
HARNESS(xml_first) { read_xml(first_doc); }
HARNESS(xml_element) { read_xml(element_doc); }
HARNESS(xml_end) { read_xml(end_doc); }
