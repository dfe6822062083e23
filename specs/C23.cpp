// LIMIT: 300
#include <vf.hpp>
#include <vector>
#include <algorithm>
#include <iostream>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <osmium/osm/meta.hpp>
#include <osmium/relations/assembler.hpp>
using namespace Osmium::OSM; namespace R = Osmium::Relations;
// the entries of the members of one id are those from g_lo to g_hi of the sorted table; g_rels relations are being assembled
static u64 g_k, g_lo, g_hi, g_rels, g_pending, g_done, g_missed, g_passed, g_all, g_members; static const void* g_obj;
static shared_ptr<Relation const> g_relation;
static u64 below(u64 v, u64 n) { return vf_engine() ? (v < n ? v : n - 1) : v % n; }
static u64 rp(u64 i) { return below(vf_uf1("relation", i), g_rels); }
static u64 mp(u64 i) { return below(vf_uf1("position", i), g_members); }
// stands for the relation info of the application: what the assembler does with it is watched
struct Info;
static u64 index_of(const Info* p);
struct Info {
    int need; bool blank;
    Info() : need(0), blank(true) {}
    Info(const shared_ptr<Relation const>& r) : need(0), blank(false) { (void)r; }
    Info(const Info& o) : need(o.need), blank(o.blank) {}
    Info& operator=(const Info& o) {
        if (o.blank) { vf_ensure("a relation is dropped once it has been completed", g_pending == index_of(this) + 1 && g_done); g_pending = g_done = 0; }
        need = o.need; blank = o.blank; return *this;
    }
    const shared_ptr<Relation const>& relation() const { return g_relation; }
    void need_member() { ++need; }
    bool add_member(const shared_ptr<Object const>& o, osm_sequence_id_t n) {
        u64 i = g_lo + g_k, p = index_of(this);
        vf_ensure("a complete relation is dropped before anything else happens to it", g_pending == 0);
        vf_ensure("an object is added once for each of its entries", i < g_hi);
        vf_ensure("an object is added to the relation it is a member of, at its position", p == rp(i) && n == mp(i) && &*o == g_obj);
        ++g_k; bool last = (vf_uf1("last", i) & 1) != 0; g_pending = last ? p + 1 : 0; return last;
    }
};
struct Next : public Osmium::Handler::Base {
    void count(const void* o) const { vf_ensure("the next handler gets the object", o == g_obj); ++g_passed; }
    void node(const shared_ptr<Node const>& o) const { count(&*o); } void way(const shared_ptr<Way const>& o) const { count(&*o); } void relation(const shared_ptr<Relation const>& o) const { count(&*o); }
};
template <bool N, bool W, bool RR> struct Asm : public R::Assembler<Asm<N, W, RR>, Info, N, W, RR, Next> {
    typedef R::Assembler<Asm<N, W, RR>, Info, N, W, RR, Next> base;
    Asm(Next& n) : base(n) {}
    bool keep_member(Info&, const RelationMember& m);
    void complete_relation(Info& i) { vf_ensure("a relation is completed when its last member has come, and only then", g_pending == index_of(&i) + 1 && !g_done); g_done = 1; }
    void missed(const void* o) { vf_ensure("the object that is in no relation is passed on", o == g_obj); ++g_missed; }
    void node_not_in_any_relation(const shared_ptr<Node const>& o) { missed(&*o); } void way_not_in_any_relation(const shared_ptr<Way const>& o) { missed(&*o); } void relation_not_in_any_relation(const shared_ptr<Relation const>& o) { missed(&*o); }
    void all_members_available() { ++g_all; }
};
static Info* g_base;
static u64 index_of(const Info* p) { return (u64)(p - g_base); }
#ifdef VF_ENGINE
namespace std { template <> struct vf_bisect<R::MemberInfo> { static const bool given = true; static uint64_t lower() { return g_lo; } static uint64_t upper() { return g_hi; } }; }
#endif
static i64 g_id;
static i64 member_id(u64 i) { return i < g_lo ? g_id - 1 : i < g_hi ? g_id : g_id + 1; }
static Next g_nexth;
template <class A> static A& assembler() { A& a = *new A(g_nexth); g_k = g_pending = g_done = g_missed = g_passed = g_all = 0; return a; }
// the table of one type is sorted, its entries point to relations and positions that exist
template <class A> static void table(A& a, int type) {
    u64 n = vf_size("entries", 8); g_lo = vf_in_u64("lo"); g_hi = vf_in_u64("hi"); if (!vf_engine()) { g_lo %= n + 1; g_hi = g_lo + g_hi % (n - g_lo + 1); } vf_assume(g_lo <= g_hi && g_hi <= n);
    g_rels = vf_size("relations", 5) + 1; g_members = vf_size("members", 5) + 1; g_id = vf_in_i64("id"); vf_assume(g_id > -(1LL << 60) && g_id < (1LL << 60));
    Relation* r = new Relation(); for (u64 i = 0; i < g_members; ++i) r->add_member('n', 0, ""); g_relation = shared_ptr<Relation const>(r);
    for (u64 i = 0; i < g_rels; ++i) a.m_relations.push_back(Info(g_relation));
    g_base = &a.m_relations[0];
    for (u64 i = 0; i < n; ++i) a.m_member_infos[type].push_back(R::MemberInfo(member_id(i), rp(i), mp(i)));
}
static void found(bool wanted) {
    vf_ensure("the object is added to every relation that wants it", g_k == (wanted ? g_hi - g_lo : 0));
    vf_ensure("a complete relation is reported and dropped", g_pending == 0 && g_done == 0);
    vf_ensure("an object is reported as in no relation exactly if none wants it", g_missed == (u64)(wanted && g_lo == g_hi));
    vf_ensure("every object goes on to the next handler", g_passed == 1); vf_cover("found");
}
template <class O, class A> static shared_ptr<O const> prepare(A& a, int type, O* o) { table(a, type); o->id(g_id); g_obj = o; return shared_ptr<O const>(o); }
typedef Asm<true, true, true> All; typedef Asm<true, false, false> OnlyN; typedef Asm<false, true, false> OnlyW; typedef Asm<false, false, true> OnlyR;
// a relation is added: its members in order, some of them wanted
static char mtype(u64 i) { u64 t = vf_uf1("type", i) & 3; return t == 0 ? 'n' : t == 1 ? 'w' : 'r'; }
static i64 mref(u64 i) { return vf_i64s("ref", i); }
static bool keep(u64 i) { return (vf_uf1("keep", i) & 1) != 0; }
template <bool N, bool W, bool RR> bool Asm<N, W, RR>::keep_member(Info&, const RelationMember& m) {
    u64 i = g_k++; vf_ensure("each member is asked for in order", m.ref() == mref(i) && m.type() == mtype(i)); return keep(i);
}
static bool goes(u64 i, char t) { return keep(i) & (mtype(i) == t); }
static u64 before(char t, u64 k) { auto f = [t](u64 acc, u64 i) -> u64 { return acc + goes(i, t); }; return vf_fold(k, 0, f); }
static u64 kept(u64 k) { auto f = [](u64 acc, u64 i) -> u64 { return acc + keep(i); }; return vf_fold(k, 0, f); }
static bool entry(R::member_info_vector_t& v, u64 i, i64 id, u64 rel, u64 pos) { const R::MemberInfo* e = &*v.begin() + i; return (e->m_member_id == id) & (e->m_relation_pos == rel) & (e->m_member_pos == pos); }
static void add(int type, char c) {
    All& a = assembler<All>(); u64 m = vf_size("members", 6), q = vf_engine() ? vf_in_u64("q") : vf_in_u64("q") % (m + 1), w = vf_engine() ? vf_in_u64("w") : vf_in_u64("w") % 6, old[3]; vf_assume(m < (1u << 28));
    g_rels = vf_size("relations", 5); vf_assume(g_rels < (1u << 28)); old[0] = vf_size("nodes", 5); old[1] = vf_size("ways", 5); old[2] = vf_size("rels", 5);
    for (u64 i = 0; i < g_rels; ++i) { Info o; o.blank = false; a.m_relations.push_back(o); }
    for (u64 i = 0; i < old[type]; ++i) a.m_member_infos[type].push_back(R::MemberInfo(vf_i64s("old", i), (u32)vf_i32s("oldr", i), (u32)vf_i32s("oldm", i)));
    for (int t = 0; t < 3; ++t) if (t != type) for (u64 i = 0; i < old[t]; ++i) a.m_member_infos[t].push_back(R::MemberInfo(0, 0, 0));
    Relation* r = new Relation(); for (u64 i = 0; i < m; ++i) r->add_member(mtype(i), mref(i), ""); g_relation = shared_ptr<Relation const>(r);
    R::member_info_vector_t& v = a.m_member_infos[type];
    u64 o0 = old[0], o1 = old[1], o2 = old[2];
    auto s0 = [o0](u64 k) -> u64 { return o0 + before('n', k); }; auto s1 = [o1](u64 k) -> u64 { return o1 + before('w', k); }; auto s2 = [o2](u64 k) -> u64 { return o2 + before('r', k); }; auto s3 = [](u64 k) -> u64 { return kept(k); };
    vf_val(s0); vf_val(s1); vf_val(s2); vf_val(s3);
    u64 at = old[type] + before(c, q), oldt = old[type];
    VF_INV(q >= K || (before(c, q) <= q && before(c, q) + goes(q, c) <= before(c, K))); VF_INV(before(c, K) <= K);
    VF_INV(q >= K || !goes(q, c) || entry(v, at, mref(q), g_rels, q));
    VF_INV(w >= oldt || entry(v, w, vf_i64s("old", w), (u32)vf_i32s("oldr", w), (u32)vf_i32s("oldm", w)));
    a.relation(g_relation);
    vf_ensure("every member is looked at", g_k == m);
    vf_ensure("there is one more relation, which needs as many members as are wanted", a.m_relations.size() == g_rels + 1 && a.m_relations[g_rels].need == (int)kept(m) && !a.m_relations[g_rels].blank);
    vf_ensure("there is one entry more for each wanted member, in the table of its type", a.m_member_infos[0].size() == o0 + before('n', m) && a.m_member_infos[1].size() == o1 + before('w', m) && a.m_member_infos[2].size() == o2 + before('r', m));
    if (q < m && goes(q, c)) vf_ensure("the entry has the id of the member, the relation and the position in it", at < v.size() && entry(v, at, mref(q), g_rels, q));
    if (w < oldt) vf_ensure("entries of other relations stay", entry(v, w, vf_i64s("old", w), (u32)vf_i32s("oldr", w), (u32)vf_i32s("oldm", w)));
    vf_cover("added");
}
HARNESS(add_nodes) { add(NODE, 'n'); }
HARNESS(add_ways) { add(WAY, 'w'); }
HARNESS(add_relations) { add(RELATION, 'r'); }
HARNESS(node) { All& a = assembler<All>(); a.handler_pass2().node(prepare(a, NODE, new Node())); found(true); }
HARNESS(way) { All& a = assembler<All>(); a.handler_pass2().way(prepare(a, WAY, new Way())); found(true); }
HARNESS(relation) { All& a = assembler<All>(); a.handler_pass2().relation(prepare(a, RELATION, new Relation())); found(true); }
HARNESS(node_only) { OnlyN& a = assembler<OnlyN>(); a.handler_pass2().node(prepare(a, NODE, new Node())); found(true); }
HARNESS(way_only) { OnlyW& a = assembler<OnlyW>(); a.handler_pass2().way(prepare(a, WAY, new Way())); found(true); }
HARNESS(relation_only) { OnlyR& a = assembler<OnlyR>(); a.handler_pass2().relation(prepare(a, RELATION, new Relation())); found(true); }
// the tables are sorted when all relations are known, and reading stops; what has been looked through is dropped
static u64 g_sorted[3]; static R::member_info_vector_t* g_tables;
#ifdef VF_ENGINE
namespace std { template <> struct vf_sort_hook<R::MemberInfo> { static const bool given = true; static void sorted(R::MemberInfo* f, R::MemberInfo* l) { for (int t = 0; t < 3; ++t) if (g_tables[t].size() && f == &*g_tables[t].begin()) { vf_ensure("whole tables are sorted", (u64)(l - f) == g_tables[t].size()); ++g_sorted[t]; } } }; }
#endif
static R::MemberInfo any(int t, u64 i) { return R::MemberInfo(vf_i64s("entry", i * 3 + t), (u32)i, 0); }
HARNESS(sorting) {
    All& a = assembler<All>(); u64 n[3] = {vf_size("nodes", 6), vf_size("ways", 6), vf_size("rels", 6)}; bool stopped = false; g_tables = a.m_member_infos;
    for (int t = 0; t < 3; ++t) { g_sorted[t] = 0; for (u64 i = 0; i < n[t]; ++i) a.m_member_infos[t].push_back(any(t, i)); }
    try { a.handler_pass1().after_relations(); } catch (Osmium::Handler::StopReading&) { stopped = true; }
    vf_ensure("reading stops after the relations", stopped);
    for (int t = 0; t < 3; ++t) {
        vf_ensure("no entry is lost", a.m_member_infos[t].size() == n[t]);
#ifdef VF_ENGINE
        vf_ensure("every table is sorted", n[t] == 0 || g_sorted[t] > 0);
#else
        for (u64 i = 1; i < n[t]; ++i) vf_ensure("every table is sorted", a.m_member_infos[t][i - 1].m_member_id <= a.m_member_infos[t][i].m_member_id);
#endif
    }
    vf_cover("sorted");
}
HARNESS(order) {
    i64 x = vf_in_i64("a"), y = vf_in_i64("b"); u32 r = vf_in_u32("r") & 0xffffff, q = vf_in_u32("p"); R::MemberInfo a(x, r, q), b(y, 0, 0);
    vf_ensure("an entry has what it was made of", a.m_relation_pos == r && a.m_member_pos == q && a.m_member_id == x);
    vf_ensure("entries are ordered by the id of the member", (a < b) == (x < y));
}
template <class A> static void ends(u64 wanted, int t) {
    A& a = assembler<A>(); u64 n = vf_size("entries", 6); int other = (t + 1) % 3;
    g_id = 0; for (u64 i = 0; i < n; ++i) a.m_member_infos[t].push_back(any(t, i)); for (u64 i = 0; i < n; ++i) a.m_member_infos[other].push_back(any(other, i));
    bool w = (wanted >> t) & 1; int left = (int)(vf_in_u32("left") % 3) + 1; a.handler_pass2().m_want_types = left;
    if (t == 0) a.handler_pass2().after_nodes(); else if (t == 1) a.handler_pass2().after_ways(); else a.handler_pass2().after_relations();
    vf_ensure("the table of a kind is dropped when its objects have been seen, and no other", a.m_member_infos[t].size() == (w ? 0 : n) && a.m_member_infos[other].size() == n);
    vf_ensure("when the last kind of member has been seen all members are available, and not before", g_all == (u64)(w && left == 1));
}
HARNESS(ends_all_0) { ends<All>(7, 0); }
HARNESS(ends_all_1) { ends<All>(7, 1); }
HARNESS(ends_all_2) { ends<All>(7, 2); }
HARNESS(ends_nodes_0) { ends<OnlyN>(1, 0); }
HARNESS(ends_nodes_1) { ends<OnlyN>(1, 1); }
HARNESS(ends_nodes_2) { ends<OnlyN>(1, 2); }
HARNESS(ends_ways_0) { ends<OnlyW>(2, 0); }
HARNESS(ends_ways_1) { ends<OnlyW>(2, 1); }
HARNESS(ends_ways_2) { ends<OnlyW>(2, 2); }
HARNESS(ends_relations_0) { ends<OnlyR>(4, 0); }
HARNESS(ends_relations_1) { ends<OnlyR>(4, 1); }
HARNESS(ends_relations_2) { ends<OnlyR>(4, 2); }
HARNESS(begins) {
    vf_ensure("as many kinds are waited for as are wanted", assembler<All>().handler_pass2().m_want_types == 3 && assembler<OnlyN>().handler_pass2().m_want_types == 1 && assembler<OnlyW>().handler_pass2().m_want_types == 1 && assembler<OnlyR>().handler_pass2().m_want_types == 1);
    vf_ensure("nothing is being assembled at first", assembler<All>().m_relations.empty() && assembler<All>().m_member_infos[0].empty() && assembler<All>().m_member_infos[1].empty() && assembler<All>().m_member_infos[2].empty());
}
