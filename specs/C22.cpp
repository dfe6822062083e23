// LIMIT: 300
#include <vf.hpp>
#include <set>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <osmium/osm/meta.hpp>
#include <osmium/storage/objectstore.hpp>
using namespace Osmium::OSM;
typedef Osmium::Storage::ObjectStore Store;
// the objects a store holds: id and version of the one at each position
// (natively two versions of each id; the solver may choose any as far as the order allows)
static i64 id_of(u64 k, u64 i) { if (vf_engine()) vf_assume(vf_i64s("id", i * 4 + k) != (i64)(1ULL << 63)); return vf_engine() ? vf_i64s("id", i * 4 + k) : (i64)((i / 2 * 3 + k) * (i & 2 ? -1 : 1)); }
static u32 version_of(u64 k, u64 i) { return vf_engine() ? (u32)vf_i32s("version", i * 4 + k) : (u32)(i % 2 + 1); }
static u64 g_n[3], g_next[3], g_phase; static u64 g_in[3], g_streamed; static const void* g_stream_obj; static bool g_meta_ok; static const Meta* g_meta; static bool g_skip;
template <class O> struct kind_of; template <> struct kind_of<Node> { enum { k = 0 }; }; template <> struct kind_of<Way> { enum { k = 1 }; }; template <> struct kind_of<Relation> { enum { k = 2 }; };
template <class O> static shared_ptr<O const> elem(u64 i) { O* o = new O(); o->id(id_of(kind_of<O>::k, i)); o->version((osm_version_t)version_of(kind_of<O>::k, i)); return shared_ptr<O const>(o); }
#ifdef VF_ENGINE
template <class O> static const shared_ptr<O const>& elem_ref(u64 i) { return *new shared_ptr<O const>(elem<O>(i)); }
template <> const shared_ptr<Node const>& vf_set_elem<shared_ptr<Node const> >(u64 i) { return elem_ref<Node>(i); }
template <> const shared_ptr<Way const>& vf_set_elem<shared_ptr<Way const> >(u64 i) { return elem_ref<Way>(i); }
template <> const shared_ptr<Relation const>& vf_set_elem<shared_ptr<Relation const> >(u64 i) { return elem_ref<Relation>(i); }
#define FILL(S, O) S.base = g_n[kind_of<O>::k]
#else
#define FILL(S, O) for (u64 q = 0; q < g_n[kind_of<O>::k]; ++q) S.insert(elem<O>(q))
#endif
template <class O> static bool less_than(const O& a, const O& b) { return a < b; }
template <class S> static typename S::iterator pos(S& s, u64 p) { typename S::iterator i = s.begin();
#ifdef VF_ENGINE
    i.r = p;
#else
    while (p--) ++i;
#endif
    return i; }
template <class S> static u64 index(S& s, const typename S::iterator& i) {
#ifdef VF_ENGINE
    return i.r;
#else
    return std::distance(s.begin(), i);
#endif
}
// what a handler is given: phases 0 init, 1 before nodes, 2 nodes, 3 before ways, 4 ways, 5 before relations, 6 relations, 7 the end, 8 ended
struct Rec : public Osmium::Handler::Base {
    void step(u64 from) const { vf_ensure("the callbacks come in their order, each once", g_phase == from || (g_skip && (from & g_phase & 1) && g_phase < from)); g_phase = from + 1; }
    void init(Meta& m) const { step(0); vf_ensure("the handler is initialised with the meta data of the caller", &m == g_meta); }
    void before_nodes() const { step(1); } void before_ways() const { step(3); } void before_relations() const { step(5); }
    template <class O> void after() const { u64 k = kind_of<O>::k; step(2 * k + 2); vf_ensure("every stored object has been delivered when its kind ends", g_next[k] == g_n[k]); }
    void after_nodes() const { after<Node>(); } void after_ways() const { after<Way>(); } void after_relations() const { after<Relation>(); }
    void final() const { step(7); }
    template <class O> void object(const O& o) const {
        u64 k = kind_of<O>::k; vf_ensure("objects come between the callbacks of their kind", g_phase == 2 * k + 2);
        if (&o == g_stream_obj) {
            ++g_streamed;
            if (g_next[k] < g_n[k]) vf_ensure("no stored object that comes before the one in the stream is left behind", !less_than(*elem<O>(g_next[k]), o));
        } else {
            vf_ensure("nothing is delivered that is not stored", g_next[k] < g_n[k]);
            vf_ensure("the stored objects are delivered in order, each once", o.id() == id_of(k, g_next[k]) && o.version() == version_of(k, g_next[k]));
            if (g_stream_obj) vf_ensure("a stored object delivered before the one in the stream comes before it", !g_streamed && less_than(o, *(const O*)g_stream_obj));
            ++g_next[k];
        }
    }
    void node(const shared_ptr<Node const>& o) const { object(*o); }
    void way(const shared_ptr<Way const>& o) const { object(*o); }
    void relation(const shared_ptr<Relation const>& o) const { object(*o); }
};
static void start(Store& s, u64 phase) {
    g_n[0] = vf_size("nodes", 6); g_n[1] = vf_size("ways", 6); g_n[2] = vf_size("relations", 6); g_next[0] = g_next[1] = g_next[2] = g_streamed = 0; g_phase = phase; g_stream_obj = 0; g_skip = false;
    FILL(s.m_nodes, Node); FILL(s.m_ways, Way); FILL(s.m_relations, Relation);
}
static void feed(bool clear) {
    Store s; start(s, 0); Rec h; Meta meta; g_meta = &meta;
    if (clear) s.feed_to(&h, meta); else s.feed_to(&h, meta, false);
    vf_ensure("the handler gets all callbacks", g_phase == 8);
    vf_ensure("the store is emptied after feeding, if so asked, and keeps its objects otherwise", s.m_nodes.size() == (clear ? 0 : g_n[0]) && s.m_ways.size() == (clear ? 0 : g_n[1]) && s.m_relations.size() == (clear ? 0 : g_n[2]));
    vf_cover("fed");
}
HARNESS(feed_clear) { feed(true); }
HARNESS(feed_keep) { feed(false); }
// one object comes along the stream, at any time
#define APPLY(O, CALL, ITER, SET, K) { \
    Store& s = *new Store(); start(s, 2 * K + 2); Rec h; Meta meta; g_meta = &meta; \
    Store::ApplyHandler<Rec>& a = *new Store::ApplyHandler<Rec>(s, h, meta); \
    u64 p = vf_size("p", 6); vf_assume(p <= g_n[K]); a.ITER = pos(s.SET, p); g_next[K] = p; \
    O* x = new O(); x->id(vf_in_i64("id")); x->version((osm_version_t)vf_in_u32("version")); vf_assume(x->id() != (i64)(1ULL << 63)); g_stream_obj = x; \
    shared_ptr<O> sx(x); a.CALL(sx); \
    vf_ensure("the object in the stream is delivered once", g_streamed == 1); \
    vf_ensure("the store goes on where it was left", index(s.SET, a.ITER) == g_next[K] && s.SET.size() == g_n[K]); \
    vf_cover("merged"); \
}
HARNESS(stream_node) APPLY(Node, node, m_nodes_iter, m_nodes, 0)
HARNESS(stream_way) APPLY(Way, way, m_ways_iter, m_ways, 1)
HARNESS(stream_relation) APPLY(Relation, relation, m_relations_iter, m_relations, 2)
// the stream of objects of one kind ends, with any number of stored objects left
HARNESS(ends) {
    Store& s = *new Store(); start(s, 0); Rec h; Meta meta; g_meta = &meta; Meta other;
    Store::ApplyHandler<Rec>& a = *new Store::ApplyHandler<Rec>(s, h, meta);
    vf_ensure("merging starts with the first stored object", index(s.m_nodes, a.m_nodes_iter) == 0 && index(s.m_ways, a.m_ways_iter) == 0 && index(s.m_relations, a.m_relations_iter) == 0);
    u64 p = vf_size("p", 6), q = vf_size("q", 6), r = vf_size("r", 6); vf_assume(p <= g_n[0] && q <= g_n[1] && r <= g_n[2]);
    a.m_nodes_iter = pos(s.m_nodes, p); a.m_ways_iter = pos(s.m_ways, q); a.m_relations_iter = pos(s.m_relations, r); g_next[0] = p; g_next[1] = q; g_next[2] = r;
    a.init(other);
    a.before_nodes(); a.after_nodes();
    a.before_ways(); a.after_ways();
    a.before_relations(); a.after_relations();
    a.final();
    vf_ensure("the handler gets all callbacks", g_phase == 8);
    vf_ensure("what has been merged is removed from the store", s.m_nodes.size() == 0 && s.m_ways.size() == 0 && s.m_relations.size() == 0);
    vf_cover("ended");
}
// a kind of which the stream has no objects: nothing stored is lost
HARNESS(absent) {
    Store& s = *new Store(); start(s, 0); Rec h; Meta meta; g_meta = &meta; u64 kinds = vf_in_u64("kinds") & 7;
    Store::ApplyHandler<Rec>& a = *new Store::ApplyHandler<Rec>(s, h, meta);
    a.init(meta);
    g_skip = true;
    if (kinds & 1) { a.before_nodes(); a.after_nodes(); }
    if (kinds & 2) { a.before_ways(); a.after_ways(); }
    if (kinds & 4) { a.before_relations(); a.after_relations(); }
    a.final();
    vf_ensure("stored objects are delivered even if the stream has none of their kind", g_next[0] == g_n[0] && g_next[1] == g_n[1] && g_next[2] == g_n[2]);
}
template <class S, class P> static u64 place(S& s, const P& x) {
#ifdef VF_ENGINE
    return s.place;
#else
    return std::distance(s.begin(), s.find(x));
#endif
}
// an object is inserted into any store
#define INSERT(O, CALL, SET, K) { \
    Store& s = *new Store(); start(s, 0); u64 n = g_n[K]; O* x = new O(); x->id(vf_in_i64("id")); x->version((osm_version_t)vf_in_u32("version")); \
    vf_assume(x->id() != (i64)(1ULL << 63)); shared_ptr<O const> sx(x); \
    s.CALL(sx); \
    u64 m = s.SET.size(), p = place(s.SET, sx), q = vf_in_u64("q"); \
    vf_ensure("an object is added to those of its kind at most once", m == n || m == n + 1); \
    vf_ensure("and to no others", s.m_nodes.size() + s.m_ways.size() + s.m_relations.size() == g_n[0] + g_n[1] + g_n[2] + m - n); \
    if (m == n) { vf_ensure("an object is left out only if one with its id and version is stored", p < n && elem<O>(p)->id() == x->id() && elem<O>(p)->version() == x->version()); } \
    else { \
        vf_ensure("the object itself is stored", pos(s.SET, p)->get() == x); \
        if (p > 0) vf_ensure("it comes after those that are smaller", less_than(*elem<O>(p - 1), *x)); \
        if (p < n) vf_ensure("and before those that are not", less_than(*x, *elem<O>(p))); \
    } \
    if (q < n) { u64 w = q + (m > n && q >= p); vf_ensure("what was stored stays", (*pos(s.SET, w))->id() == id_of(K, q) && (*pos(s.SET, w))->version() == version_of(K, q)); } \
    vf_cover("inserted"); \
}
HARNESS(insert_node) INSERT(Node, node, m_nodes, 0)
HARNESS(insert_way) INSERT(Way, way, m_ways, 1)
HARNESS(insert_relation) INSERT(Relation, relation, m_relations, 2)
HARNESS(clears) {
    Store s; start(s, 0); u64 w = vf_in_u64("which") & 3;
    if (w == 0) s.clear_nodes(); else if (w == 1) s.clear_ways(); else if (w == 2) s.clear_relations(); else s.clear();
    vf_ensure("clearing removes the objects asked for and no others", s.m_nodes.size() == (w == 0 || w == 3 ? 0 : g_n[0]) && s.m_ways.size() == (w == 1 || w == 3 ? 0 : g_n[1]) && s.m_relations.size() == (w == 2 || w == 3 ? 0 : g_n[2]));
}
