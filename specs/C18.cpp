#include <vf.hpp>
#include "xml_env.hpp"
#include <ctime>
#include <vector>
using namespace Osmium::OSM;
#ifdef VF_NATIVE
const char* pool[] = {"id", "version", "changeset", "timestamp", "uid", "user", "visible", "lon", "lat", "1", "-3", "12.5", "false", "true", "k", "v", "ref", "type", "role", "tag", "nd", "member", "node", "way", "0.6", "2012-01-01T00:00:00Z", "x", 0};
const char** vf_pool_user = pool;
#endif
static void (*g_document)(); static int g_calls;
static bool vf_document(int len, int done) { if (!done) g_document(); return true; }
static ssize_t vf_read(int, void*, size_t) { return g_calls++ ? 0 : 1; }
struct Rec : public Osmium::Handler::Base {
    mutable u64 nodes, ways, relations, inits; mutable const void* last; mutable shared_ptr<Node const> n; mutable shared_ptr<Way const> w; mutable shared_ptr<Relation const> r;
    mutable Bounds bounds; mutable std::string generator;
    Rec() : Osmium::Handler::Base(), nodes(0), ways(0), relations(0), inits(0), last(0) {}
    void init(Meta& m) const { ++inits; bounds = m.bounds(); generator = m.generator(); }
    void node(const shared_ptr<Node const>& o) const { ++nodes; n = o; last = o.get(); }
    void way(const shared_ptr<Way const>& o) const { ++ways; w = o; last = o.get(); }
    void relation(const shared_ptr<Relation const>& o) const { ++relations; r = o; last = o.get(); }
    u64 all() const { return nodes + ways + relations; }
};
typedef Osmium::Input::XML<Rec> In;
static Rec* g_rec; static u64 g_n, g_m, g_a, g_k, g_q; static bool g_del;
static bool read_it(void (*doc)()) {
    g_document = doc; g_calls = 0; g_parsers = 0; g_n = g_m = g_a = g_k = 0; g_del = false;
    Rec rec; g_rec = &rec;
    In in(Osmium::OSMFile("x.osm"), rec);
    try { in.parse(); } catch (std::exception&) { return false; }
    vf_ensure("the parser is freed after a complete document", g_parsers == 0);
    return true;
}
static const char* name(Node*) { return "node"; } static const char* name(Way*) { return "way"; } static const char* name(Relation*) { return "relation"; }
static const Node& got(Node*) { return *g_rec->n; } static const Way& got(Way*) { return *g_rec->w; } static const Relation& got(Relation*) { return *g_rec->r; }
static u64 count(Node*) { return g_rec->nodes; } static u64 count(Way*) { return g_rec->ways; } static u64 count(Relation*) { return g_rec->relations; }
static u64 index(u64 n) { return vf_engine() ? vf_in_u64("k") : (n ? vf_in_u64("k") % n : 0); }
static void open_doc() {
    start_("osmChange", g_none);
    g_del = vf_in_bool("delete section");
    if (g_del) start_("delete", g_none);
}
static bool is(u64 e, u64 i, const char* n) { return an(e, i) == n; }
static i64 when(const char* s) { struct tm t = {}; strptime(s, "%Y-%m-%dT%H:%M:%SZ", &t); return timegm(&t); }
// the value of the last attribute with a name
template <class F> static u64 last(u64 k, const char* n, u64 init, F f) { auto g = [n, f](u64 acc, u64 i) -> u64 { return is(1, i, n) ? (u64)f(av(1, i).c_str()) : acc; }; return vf_fold(k, init, g); }
static u64 lon(const char* v) { Position p; p.lon(atof(v)); return (u32)p.x(); }
static u64 lat(const char* v) { Position p; p.lat(atof(v)); return (u32)p.y(); }
static void rest(const Node& o, u64 x, u64 y) { vf_ensure("the location is that of the element", (u32)o.position().x() == (u32)x && (u32)o.position().y() == (u32)y); }
static void rest(const Way& o, u64, u64) { vf_ensure("no way nodes without nd elements", o.nodes().size() == 0); }
static void rest(const Relation& o, u64, u64) { vf_ensure("no members without member elements", o.members().size() == 0); }
// an element with any number of attributes, with or without an earlier node that the handler may keep
template <class T> static void object_doc() {
    T* t = 0;
    open_doc();
    bool before = vf_in_bool("earlier");
    shared_ptr<Node const> kn; const Node* kept = 0;
    if (before) {
        start_("node", g_none);
        const char* tag[] = {"k", "highway", "v", "crossing", 0}; start_("tag", tag); end_("tag");
        end_("node");
        kn = g_rec->n; kept = kn.get(); g_rec->n.reset();
    }
    u64 c = g_rec->all(), ct = count(t);
    Attrs a(1, g_n);
    VF_INV(K <= g_n);
    auto id = [&](u64 k) { return last(k, "id", 0, [](const char* v) { return atoll(v); }); }; vf_val(id);
    auto version = [&](u64 k) { return last(k, "version", 0, [](const char* v) { return (u32)atol(v); }); }; vf_val(version);
    auto changeset = [&](u64 k) { return last(k, "changeset", 0, [](const char* v) { return (u32)atol(v); }); }; vf_val(changeset);
    auto uid = [&](u64 k) { return last(k, "uid", 0xffffffffu, [](const char* v) { return (u32)atol(v); }); }; vf_val(uid);
    auto ts = [&](u64 k) { return last(k, "timestamp", 0, [](const char* v) { return when(v); }); }; vf_val(ts);
    auto visible = [&](u64 k) { return last(k, "visible", !g_del, [](const char* v) { return std::string(v) != "false"; }); }; vf_val(visible);
    auto x = [&](u64 k) { return last(k, "lon", (u32)Position().x(), lon); }; vf_val(x);
    auto y = [&](u64 k) { return last(k, "lat", (u32)Position().y(), lat); }; vf_val(y);
    auto user = [&](u64 k) { auto g = [&](const std::string& acc, u64 i) -> std::string { return is(1, i, "user") ? av(1, i) : acc; }; return vf_folds(k, "", g); }; vf_vals(user);
    start_(name(t), a.list());
    vf_clear_inv();
    vf_ensure("nothing is delivered before the element ends", g_rec->all() == c);
    end_(name(t));
    vf_ensure("exactly one object is delivered for an element", g_rec->all() == c + 1 && count(t) == ct + 1);
    const T& o = got(t);
    vf_ensure("the id is that of the element", (u64)o.id() == id(g_n));
    vf_ensure("the version is that of the element", o.version() == (u32)version(g_n));
    vf_ensure("the changeset is that of the element", (u32)o.changeset() == (u32)changeset(g_n));
    vf_ensure("the user id is that of the element", (u32)o.uid() == (u32)uid(g_n));
    vf_ensure("the timestamp is that of the element", (u64)o.timestamp() == ts(g_n) && o.endtime() == 0);
    vf_ensure("the user is that of the element", std::string(o.user()) == user(g_n));
    vf_ensure("the visibility is that of the element, or else that of its section", o.visible() == ((visible(g_n) & 1) != 0));
    vf_ensure("no tags without tag elements", o.tags().size() == 0);
    rest(o, x(g_n), y(g_n));
    if (kept) { vf_ensure("an object the handler keeps does not change", kept->tags().size() == 1 && !kept->position().defined() && kept->id() == 0 && (const void*)kept != (const void*)&o); vf_cover("kept"); }
    end_("osm");
}
template <class T> static void object() { read_it([] { g_n = vf_size("n", 8); vf_assume(g_n < (1u << 30)); object_doc<T>(); }); }
HARNESS(node) { object<Node>(); }
HARNESS(way) { object<Way>(); }
HARNESS(relation) { object<Relation>(); }

// ---- child elements: an object with any tags and any way nodes or members gets one more child with any attributes
static void own(Node*, u64) {}
static void own(Way*, u64 j) { std::string v = vf_dec(vf_i64s("ref", j)); const char* a[] = {"ref", v.c_str(), 0}; start_("nd", a); end_("nd"); }
static void own(Relation*, u64 j) { std::string v = vf_dec(vf_i64s("ref", j)), r = vf_strs("role", j); vf_assume(r.size() <= 255 * 4); const char* a[] = {"type", "way", "role", r.c_str(), "ref", v.c_str(), 0}; start_("member", a); end_("member"); }
static u64 owns(const Node&) { return 0; } static u64 owns(const Way& w) { return w.nodes().size(); } static u64 owns(const Relation& r) { return r.members().size(); }
static bool isown(const Node&, u64, u64) { return true; }
static i64 refs(u64 j) { std::string v = vf_dec(vf_i64s("ref", j)); return Osmium::string_to_osm_object_id_t(v.c_str()); }
static bool isown(const Way& w, u64 j, u64) { return w.nodes()[(int)j].ref() == refs(j); }
static bool isown(const Relation& r, u64 j, u64) { const RelationMember* m = r.get_member(j); return m->ref() == refs(j) && m->type() == 'w' && std::string(m->role()) == vf_strs("role", j); }
static void keeps(Node*) {} static void keeps(Way*) {}
struct Kept { const RelationMemberList* l; bool operator()(u64 K) const { return l->size() == K; } };
struct Kept2 { const RelationMemberList* l; bool operator()(u64 K) const { return g_q >= K || ((*l)[(int)g_q].ref() == refs(g_q) && (*l)[(int)g_q].type() == 'w' && std::string((*l)[(int)g_q].role()) == vf_strs("role", g_q)); } };
static void keeps(Relation*) { static Kept a; static Kept2 b; a.l = b.l = &((In*)g_user)->m_relation->members(); vf_inv(a); vf_inv(b); }
template <class T> static void filled(T* t) {
    open_doc();
    const char* a[] = {"id", "17", "version", "3", "user", "someone", 0};
    start_(name(t), a);
    for (u64 j = 0; j < g_n; ++j) { std::string k = vf_strs("key", j), v = vf_strs("val", j); const char* a[] = {"k", k.c_str(), "v", v.c_str(), 0}; start_("tag", a); end_("tag"); }
    g_q = index(g_m); keeps(t);
    for (u64 j = 0; j < g_m; ++j) own(t, j);
    vf_clear_inv();
}
template <class T> static void same_but(T* t, u64 tags, u64 owned) {
    const T& o = got(t); u64 k = index(g_n), q = g_q;
    vf_ensure("one object is delivered", g_rec->all() == 1 && count(t) == 1);
    vf_ensure("attributes do not come from child elements", o.id() == 17 && o.version() == 3 && std::string(o.user()) == "someone" && o.changeset() == 0 && o.uid() == -1 && o.timestamp() == 0 && o.visible() == !g_del);
    vf_ensure("exactly the tags of the element", (u64)o.tags().size() == g_n + tags);
    if (k < g_n) vf_ensure("tags in document order", std::string(o.tags()[(int)k].key()) == vf_strs("key", k) && std::string(o.tags()[(int)k].value()) == vf_strs("val", k));
    vf_ensure("exactly the references of the element", owns(o) == g_m + owned);
    if (q < g_m) vf_ensure("references in document order", isown(o, q, 0));
}
template <class T> static void tag_doc() {
    T* t = 0; g_n = vf_size("n", 4); g_m = t == (T*)0 && !std::is_same<T, Node>::value ? vf_size("m", 4) : 0; vf_assume(g_n < (1u << 30) && g_m < (1u << 30));
    filled(t);
    g_a = vf_size("a", 4); vf_assume(g_a < (1u << 30));
    Attrs a(1, g_a);
    VF_INV(K <= g_a);
    auto key = [&](u64 k) { auto g = [](const std::string& acc, u64 i) -> std::string { return is(1, i, "k") ? av(1, i) : acc; }; return vf_folds(k, "", g); }; vf_vals(key);
    auto val = [&](u64 k) { auto g = [](const std::string& acc, u64 i) -> std::string { return is(1, i, "v") ? av(1, i) : acc; }; return vf_folds(k, "", g); }; vf_vals(val);
    start_("tag", a.list());
    vf_clear_inv();
    end_("tag"); end_(name(t)); end_("osmChange");
    same_but(t, 1, 0);
    const Tag& tag = got(t).tags()[(int)g_n];
    vf_ensure("a tag has the key and value of its element", std::string(tag.key()) == key(g_a) && std::string(tag.value()) == val(g_a));
}
HARNESS(tag_node) { read_it(tag_doc<Node>); }
HARNESS(tag_way) { read_it(tag_doc<Way>); }
HARNESS(tag_relation) { read_it(tag_doc<Relation>); }

// a reference: a way node for each ref attribute (an XML element has at most one), at whatever place among others
static void nd_doc() {
    Way* t = 0; g_n = 0; g_m = vf_size("m", 4); vf_assume(g_m < (1u << 30));
    filled(t);
    g_a = vf_size("a", 4); vf_assume(g_a < (1u << 30)); u64 at = index(g_a), q = vf_in_u64("q");
    auto refs_before = [](u64 k) { auto g = [](u64 acc, u64 i) -> u64 { return is(1, i, "ref") ? acc + 1 : acc; }; return vf_fold(k, 0, g); }; vf_val(refs_before);
    Attrs a(1, g_a);
    WayNodeList& l = ((In*)g_user)->m_way->nodes();
    VF_INV(K <= g_a);
    VF_INV(refs_before(K) <= K);
    VF_INV(l.m_list.size() == g_m + refs_before(K));
    VF_INV(K <= at || !is(1, at, "ref") || refs_before(at) < refs_before(K));
    VF_INV(K <= at || !is(1, at, "ref") || l[(int)(g_m + refs_before(at))].ref() == Osmium::string_to_osm_object_id_t(av(1, at).c_str()));
    VF_INV(q >= g_m || l[(int)q].ref() == refs(q));
    start_("nd", a.list());
    vf_clear_inv();
    end_("nd"); end_("way"); end_("osmChange");
    vf_ensure("one object is delivered", g_rec->all() == 1 && g_rec->ways == 1);
    const Way& w = got(t);
    vf_ensure("a way node for each nd element", w.nodes().size() == g_m + refs_before(g_a) && w.tags().size() == 0 && w.id() == 17 && w.version() == 3);
    if (at < g_a && is(1, at, "ref")) { vf_ensure("a way node has the reference of its element", w.nodes()[(int)(g_m + refs_before(at))].ref() == Osmium::string_to_osm_object_id_t(av(1, at).c_str())); vf_cover("nd"); }
    if (q < g_m) vf_ensure("way nodes keep their references", w.nodes()[(int)q].ref() == refs(q));
}
HARNESS(nd) { read_it(nd_doc); }
static void member_doc() {
    Relation* t = 0; g_n = 0; g_m = vf_size("m", 4); vf_assume(g_m < (1u << 30));
    filled(t);
    g_a = vf_size("a", 4); vf_assume(g_a < (1u << 30));
    Attrs a(1, g_a);
    VF_INV(K <= g_a);
    auto type = [&](u64 k) { return last(k, "type", 'x', [](const char* v) { return (u8)v[0]; }); }; vf_val(type);
    auto ref = [&](u64 k) { return last(k, "ref", 0, [](const char* v) { return Osmium::string_to_osm_object_id_t(v); }); }; vf_val(ref);
    auto role = [&](u64 k) { auto g = [](const std::string& acc, u64 i) -> std::string { return is(1, i, "role") ? av(1, i) : acc; }; return vf_folds(k, "", g); }; vf_vals(role);
    start_("member", a.list());
    vf_clear_inv();
    end_("member"); end_("relation"); end_("osmChange");
    same_but(t, 0, 1);
    const RelationMember* m = got(t).get_member(g_m);
    vf_ensure("a member has type, reference and role of its element", (u8)m->type() == (u8)type(g_a) && (u64)m->ref() == ref(g_a) && std::string(m->role()) == role(g_a));
}
HARNESS(member) { read_it(member_doc); }
// an unknown child element, with elements of any name nested in it to any depth
template <class T> static void unknown_doc() {
    T* t = 0; g_n = vf_size("n", 4); g_m = std::is_same<T, Node>::value ? 0 : vf_size("m", 4); vf_assume(g_n < (1u << 30) && g_m < (1u << 30));
    filled(t);
    std::string child = vf_str("child"); vf_assume(child != "tag" && child != "nd" && child != "member");
    Attrs a(1, 1);
    start_(child.c_str(), a.list());
    u64 deep = vf_size("deep", 4);
    for (u64 i = 0; i < deep; ++i) { Attrs b(3, 1); start_(vf_strs("nested", i).c_str(), b.list()); if (vf_uf1("empty", i) & 1) { start_("tag", b.list()); end_("tag"); } }
    for (u64 i = 0; i < deep; ++i) end_(vf_strs("nested", deep - 1 - i).c_str());
    end_(child.c_str());
    vf_ensure("an unknown child does not end its element", g_rec->all() == 0);
    const char* tag[] = {"k", "last", "v", "one", 0}; start_("tag", tag); end_("tag");
    end_(name(t)); end_("osmChange");
    same_but(t, 1, 0);
    const Tag& l = got(t).tags()[(int)g_n];
    vf_ensure("unknown elements are ignored", std::string(l.key()) == "last" && std::string(l.value()) == "one");
    if (deep > 1) vf_cover("nested");
}
HARNESS(unknown_node) { read_it(unknown_doc<Node>); }
HARNESS(unknown_way) { read_it(unknown_doc<Way>); }
HARNESS(unknown_relation) { read_it(unknown_doc<Relation>); }

// ---- the document: from any state between two top level elements, one more

static In& between(bool fresh) {
    In& in = *(In*)g_user;
    start_("osm", g_none);
    if (fresh) return in;
    u64 t = vf_pick("last type", 0, 4), c = vf_pick("last context", 0, 4);
    in.m_last_object_type = t == 0 ? UNKNOWN : t == 1 ? NODE : t == 2 ? WAY : RELATION;
    in.m_last_context = c == 0 ? In::context_root : c == 1 ? In::context_node : c == 2 ? In::context_way : In::context_relation;
    in.m_in_delete_section = g_del = vf_in_bool("delete section");
    if (vf_in_bool("earlier node")) { Node& n = in.prepare_node(); n.id(1); n.tags().add("highway", "crossing"); if (vf_in_bool("kept")) g_rec->n = in.m_node; }
    if (vf_in_bool("earlier way")) { Way& w = in.prepare_way(); w.add_node(7); w.tags().add("highway", "path"); }
    if (vf_in_bool("earlier relation")) { Relation& r = in.prepare_relation(); r.add_member('n', 7, "via"); }
    in.m_current_object = in.m_relation ? (Object*)in.m_relation.get() : (Object*)0;
    return in;
}
static void unchanged(In& in) {
    vf_ensure("the reader is between two elements again", in.m_context == In::context_top && in.m_ignored_depth == 0 && in.m_in_delete_section == g_del);
}
template <class T> static void step_doc() {
    T* t = 0; In& in = between(false);
    std::string id = vf_dec(vf_in_i64("id")), k = vf_str("k"), v = vf_str("v");
    const char* a[] = {"id", id.c_str(), "lon", "1", "lat", "2", 0}; const char* b[] = {"k", k.c_str(), "v", v.c_str(), 0};
    start_(name(t), a); start_("tag", b); end_("tag"); end_(name(t));
    vf_ensure("exactly one object is delivered for an element", g_rec->all() == 1 && count(t) == 1);
    const T& o = got(t);
    vf_ensure("an object has the id of its element", o.id() == atoll(id.c_str()));
    vf_ensure("an object in a delete section is not visible, any other is", o.visible() == !g_del);
    vf_ensure("nothing is left from earlier elements", o.version() == 0 && o.changeset() == 0 && o.uid() == -1 && o.timestamp() == 0 && std::string(o.user()) == "" && owns(o) == 0);
    vf_ensure("the tags are those of the element", o.tags().size() == 1 && std::string(o.tags()[0].key()) == k && std::string(o.tags()[0].value()) == v);
    unchanged(in);
    end_("osm");
}
HARNESS(step_node) { read_it(step_doc<Node>); }
HARNESS(step_way) { read_it(step_doc<Way>); }
HARNESS(step_relation) { read_it(step_doc<Relation>); }
static void section_doc() {
    In& in = between(false);
    u64 k = vf_pick("section", 0, 3);
    const char* n = k == 0 ? "create" : k == 1 ? "modify" : "delete";
    if (g_del) { if (k == 2) { end_("delete"); g_del = false; } }
    else { start_(n, g_none); g_del = k == 2; unchanged(in); end_(n); g_del = false; }
    vf_ensure("a section delivers nothing", g_rec->all() == 0);
    unchanged(in);
    end_("osmChange");
}
HARNESS(section) { read_it(section_doc); }
static void ignored_doc() {
    In& in = between(false);
    std::string n = vf_str("element"); vf_assume(n != "node" && n != "way" && n != "relation" && n != "bounds" && n != "delete" && n != "osm" && n != "osmChange");
    Attrs a(1, 2);
    start_(n.c_str(), a.list()); unchanged(in); end_(n.c_str());
    vf_ensure("an unknown element delivers nothing", g_rec->all() == 0 && g_rec->inits == 0 && !in.meta().bounds().defined());
    unchanged(in);
    end_("osm");
}
HARNESS(ignored) { read_it(ignored_doc); }

// ---- the root element
static bool version(u64 i) { return is(1, i, "version") && av(1, i) != "0.6"; }
static void root_doc() {
    g_a = vf_size("a", 6); vf_assume(g_a < (1u << 30)); u64 k = index(g_a);
    Attrs a(1, g_a);
    auto generator = [](u64 k) { auto g = [](const std::string& acc, u64 i) -> std::string { return is(1, i, "generator") ? av(1, i) : acc; }; return vf_folds(k, "", g); }; vf_vals(generator);
    VF_INV(K <= g_a);
    VF_INV(K <= k || !version(k));
    bool ok = true;
    try { start_(vf_in_bool("change") ? "osmChange" : "osm", a.list()); } catch (std::runtime_error&) { ok = false; }
    vf_clear_inv();
    if (k < g_a && version(k)) { vf_ensure("a document of another version is rejected", !ok); vf_cover("other version"); }
    if (!ok) return;
    start_("node", g_none); end_("node"); end_("osm");
    vf_ensure("the generator is that of the document", g_rec->inits == 1 && g_rec->generator == generator(g_a));
    vf_ensure("the object follows", g_rec->nodes == 1 && g_rec->n->visible());
}
HARNESS(root) { read_it(root_doc); }
// without an attribute "version" that is not 0.6, it is accepted
static void accepted_doc() {
    g_a = vf_size("a", 6); vf_assume(g_a < (1u << 30));
    Attrs a(4, g_a);
    bool ok = true;
    VF_INV(K <= g_a);
    try { start_(vf_in_bool("change") ? "osmChange" : "osm", a.list()); } catch (std::runtime_error&) { ok = false; }
    vf_clear_inv();
    vf_ensure("a document of version 0.6 is accepted", ok);
    end_("osm");
}
HARNESS(accepted) { read_it(accepted_doc); }
static void bounds_doc() {
    In& in = between(true);
    g_a = vf_size("a", 6); vf_assume(g_a < (1u << 30));
    Attrs a(1, g_a);
    VF_INV(K <= g_a);
    u64 none = (u32)Position().x();
    auto x0 = [none](u64 k) { return last(k, "minlon", none, lon); }; vf_val(x0);
    auto y0 = [none](u64 k) { return last(k, "minlat", none, lat); }; vf_val(y0);
    auto x1 = [none](u64 k) { return last(k, "maxlon", none, lon); }; vf_val(x1);
    auto y1 = [none](u64 k) { return last(k, "maxlat", none, lat); }; vf_val(y1);
    start_("bounds", a.list()); end_("bounds");
    vf_clear_inv();
    Bounds b; Position p, q; p.m_x = (i32)x0(g_a); p.m_y = (i32)y0(g_a); q.m_x = (i32)x1(g_a); q.m_y = (i32)y1(g_a);
    b.extend(p).extend(q);
    start_("node", g_none); end_("node"); end_("osm");
    const Bounds& o = g_rec->bounds;
    vf_ensure("the bounds are those of the element", g_rec->inits == 1 && o.defined() == b.defined() && o.bottom_left().x() == b.bottom_left().x() && o.bottom_left().y() == b.bottom_left().y() && o.top_right().x() == b.top_right().x() && o.top_right().y() == b.top_right().y());
}
HARNESS(bounds) { read_it(bounds_doc); }
