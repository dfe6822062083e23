#include <vf.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <stdexcept>
using namespace Osmium::OSM;
#ifdef VF_NATIVE
static const char* texts[] = {"id", "version", "changeset", "timestamp", "uid", "user", "visible", "false", "true", "0", "2012-05-01T12:34:56Z", "12", "", "x", "False", "lat", "lon", "users", "Id", "1999-12-31T00:00:00Z", 0};
const char** vf_pool_user = texts;
#endif
static const u64 MAXUSER = 255 * 4 + 1;
struct Snap { i64 id; u32 version; i32 changeset; time_t timestamp, endtime; i32 uid; std::string user; bool visible; u64 ntags; };
static Snap snap(const Object& o) { Snap s; s.id = o.id(); s.version = o.version(); s.changeset = o.changeset(); s.timestamp = o.timestamp(); s.endtime = o.endtime(); s.uid = o.uid(); s.user = std::string(o.user()); s.visible = o.visible(); s.ntags = o.tags().end() - o.tags().begin(); return s; }
static void same(const Object& o, const Snap& s, u64 tags, u64 k) {
    vf_ensure("id", o.id() == s.id); vf_ensure("version", o.version() == s.version); vf_ensure("changeset", o.changeset() == s.changeset);
    vf_ensure("timestamp", o.timestamp() == s.timestamp); vf_ensure("endtime", o.endtime() == s.endtime); vf_ensure("uid", o.uid() == s.uid);
    vf_ensure("user", std::string(o.user()) == s.user); vf_ensure("visible", o.visible() == s.visible); vf_ensure("anonymous exactly if the user id is -1", o.user_is_anonymous() == (s.uid == -1));
    vf_ensure("number of tags", o.tags().end() - o.tags().begin() == tags);
    if (k < tags) vf_ensure("tags", std::string(o.tags().begin()[k].key()) == vf_strs("tk", k) && std::string(o.tags().begin()[k].value()) == vf_strs("tv", k));
}
static void prior(Object& o, u64 ntags) {
    o.id(vf_in_i64("id0")); o.version((osm_version_t)vf_in_u32("version0")); o.changeset((osm_changeset_id_t)vf_in_i32("changeset0")); o.timestamp((time_t)vf_in_i64("timestamp0"));
    o.endtime((time_t)vf_in_i64("endtime0")); o.uid((osm_user_id_t)vf_in_i32("uid0")); o.visible(vf_in_bool("visible0"));
    std::string u = vf_str("user0"); vf_assume(u.size() <= MAXUSER); o.user(u.c_str());
    for (u64 i = 0; i < ntags; ++i) o.tags().add(vf_strs("tk", i).c_str(), vf_strs("tv", i).c_str());
}
// type-specific data
static Position pos(u64 i) { return Position((i32)vf_i32s("x", i), (i32)vf_i32s("y", i)); }
static void extra(Node& n, u64, u64) { n.position(pos(0)); }
static void extra(Way& w, u64 m, u64) { for (u64 i = 0; i < m; ++i) w.nodes().add(WayNode(vf_i64s("ref", i), pos(i))); }
static bool has(const Relation& r, u64 m, u64 j);
static void extra(Relation& r, u64 m, u64 j) {
    VF_INV(r.members().end() - r.members().begin() == K);
    VF_INV(j >= K || (r.members().begin()[j].type() == (char)vf_uf1("mtype", j)));
    VF_INV(j >= K || (r.members().begin()[j].ref() == vf_i64s("ref", j)));
    VF_INV(j >= K || (std::string(r.members().begin()[j].role()) == vf_strs("role", j)));
    for (u64 i = 0; i < m; ++i) { vf_assume(vf_strs("role", i).size() <= MAXUSER); r.add_member((char)vf_uf1("mtype", i), vf_i64s("ref", i), vf_strs("role", i).c_str()); }
    vf_clear_inv();
}
static bool has(const Node& n, u64, u64) { return n.position() == pos(0) && n.type() == NODE; }
static bool has(const Way& w, u64 m, u64 j) { return w.type() == WAY && w.nodes().end() - w.nodes().begin() == m && (j >= m || (w.nodes().begin()[j].ref() == vf_i64s("ref", j) && w.nodes().begin()[j].position() == pos(j))); }
static bool has(const Relation& r, u64 m, u64 j) { return r.type() == RELATION && r.members().end() - r.members().begin() == m && (j >= m || (r.members().begin()[j].type() == (char)vf_uf1("mtype", j) && r.members().begin()[j].ref() == vf_i64s("ref", j) && std::string(r.members().begin()[j].role()) == vf_strs("role", j))); }
static u64 index(const char* name, u64 n) { return vf_engine() ? vf_in_u64(name) : (n ? vf_in_u64(name) % n : 0); }
// a timestamp as text: what parsing it separately gives
static bool parse(const std::string& s, time_t& t) { try { t = Osmium::Timestamp::parse_iso(s.c_str()); return true; } catch (std::invalid_argument&) { return false; } }

template <class T> static void by_value() {
    u64 nt = vf_size("ntags", 4), k = index("k", nt), m = vf_size("m", 4), j = index("j", m); vf_assume(nt < 0x7fffffff); vf_assume(m < 0x7fffffff);
    T o; prior(o, nt); extra(o, m, j);
    Snap e = snap(o);
    u64 op = vf_pick("op", 0, 9); i64 v = vf_in_i64("v"); std::string s = vf_str("s");
    Object* r = &o; bool threw = false;
    if (op == 0) { r = &o.id((osm_object_id_t)v); e.id = v; }
    else if (op == 1) { r = &o.version((osm_version_t)v); e.version = (u32)v; }
    else if (op == 2) { r = &o.changeset((osm_changeset_id_t)v); e.changeset = (i32)v; }
    else if (op == 3) { r = &o.uid((osm_user_id_t)v); e.uid = (i32)v; }
    else if (op == 4) { r = &o.timestamp((time_t)v); e.timestamp = v; }
    else if (op == 5) { r = &o.endtime((time_t)v); e.endtime = v; }
    else if (op == 6) { r = &o.visible((bool)(v & 1)); e.visible = v & 1; }
    else if (op == 7) {
        try { r = &o.user(s.c_str()); e.user = s; } catch (std::length_error&) { threw = true; }
        vf_ensure("a user name that is too long is reported, and no other", threw == (s.size() > MAXUSER));
    } else { T copy(o); o.tags(copy.tags()); }
    vf_ensure("setters return the object", vf_same_obj(r, (Object*)&o));
    same(o, e, nt, k);
    vf_ensure("nodes, members and location are untouched", has(o, m, j));
    if (threw) vf_cover("too long");
    vf_cover("set");
}
template <class T> static void by_text() {
    u64 nt = vf_size("ntags", 4), k = index("k", nt), m = vf_size("m", 4), j = index("j", m); vf_assume(nt < 0x7fffffff); vf_assume(m < 0x7fffffff);
    T o; prior(o, nt); extra(o, m, j);
    Snap e = snap(o);
    bool number = vf_in_bool("number"), named = vf_in_bool("named"); i64 v = vf_in_i64("v");
    std::string s = number ? vf_dec(v) : vf_str("s");
    const char* names[8] = {"id", "version", "changeset", "uid", "timestamp", "user", "visible", "other"};
    u64 op = vf_pick("op", 0, 8);
    std::string attr = vf_str("attr");
    if (named) { if (op < 7) attr = std::string(names[op]); else for (u64 i = 0; i < 7; ++i) vf_assume(attr != names[i]); }
    bool parsed = true, threw = false, bad = false; time_t t = 0;
    if (op == 4) parsed = parse(s, t);
    Object* r = &o;
    try {
        if (named) o.set_attribute(attr.c_str(), s.c_str());
        else if (op == 0) r = &o.id(s.c_str()); else if (op == 1) r = &o.version(s.c_str()); else if (op == 2) r = &o.changeset(s.c_str());
        else if (op == 3) r = &o.uid(s.c_str()); else if (op == 4) r = &o.timestamp(s.c_str()); else if (op == 5) r = &o.user(s.c_str()); else if (op == 6) r = &o.visible(s.c_str());
    } catch (std::length_error&) { threw = true; bad = op != 5; } catch (std::invalid_argument&) { threw = true; bad = op != 4; }
    vf_ensure("only user names and timestamps are refused", !bad);
    if (op == 0) { if (number) e.id = v; else e.id = o.id(); }
    if (op == 1) { if (number && v >= 0 && v <= 0xffffffffLL) e.version = (u32)v; else e.version = o.version(); }
    if (op == 2) { if (number && v >= -0x80000000LL && v <= 0x7fffffffLL) e.changeset = (i32)v; else e.changeset = o.changeset(); }
    if (op == 3) { if (number && v >= -0x80000000LL && v <= 0x7fffffffLL) e.uid = (i32)v; else e.uid = o.uid(); }
    if (op == 4) { vf_ensure("a timestamp that cannot be parsed is reported, and no other", threw == !parsed); if (parsed) e.timestamp = t; }
    if (op == 5) { vf_ensure("a user name that is too long is reported, and no other", threw == (s.size() > MAXUSER)); if (!threw) e.user = s; }
    if (op == 6) e.visible = !(s == "false");
    vf_ensure("setters return the object", vf_same_obj(r, (Object*)&o));
    same(o, e, nt, k);
    vf_ensure("nodes, members and location are untouched", has(o, m, j));
    if (named) { if (op == 7) vf_cover("unknown attribute"); vf_cover("by name"); }
    if (threw) vf_cover("refused");
}
template <class T> static void fresh_and_copy() {
    T a; Snap d; d.id = 0; d.version = 0; d.changeset = 0; d.timestamp = 0; d.endtime = 0; d.uid = -1; d.user = ""; d.visible = true;
    same(a, d, 0, 0);
    u64 nt = vf_size("ntags", 4), k = index("k", nt), m = vf_size("m", 4), j = index("j", m); vf_assume(nt < 0x7fffffff); vf_assume(m < 0x7fffffff);
    T o; prior(o, nt); extra(o, m, j);
    Snap e = snap(o);
    T c(o);
    same(c, e, nt, k); vf_ensure("a copy has the same nodes, members and location", has(c, m, j));
    // the copy is independent
    o.id(1); o.version(2); o.changeset(3); o.timestamp((time_t)4); o.endtime(5); o.uid(6); o.user("x"); o.visible(!e.visible); o.tags().clear();
    same(c, e, nt, k); vf_ensure("a copy has the same nodes, members and location", has(c, m, j));
    a = c;
    same(a, e, nt, k); vf_ensure("a copy has the same nodes, members and location", has(a, m, j));
    vf_cover("copied");
}
HARNESS(node_value) { by_value<Node>(); }
HARNESS(way_value) { by_value<Way>(); }
HARNESS(relation_value) { by_value<Relation>(); }
HARNESS(node_text) { by_text<Node>(); }
HARNESS(way_text) { by_text<Way>(); }
HARNESS(relation_text) { by_text<Relation>(); }
HARNESS(node_copy) { fresh_and_copy<Node>(); }
HARNESS(way_copy) { fresh_and_copy<Way>(); }
HARNESS(relation_copy) { fresh_and_copy<Relation>(); }
HARNESS(type_data) {
    u64 nt = vf_size("ntags", 4), k = index("k", nt), m = vf_size("m", 4), j = index("j", m); vf_assume(nt < 0x7fffffff); vf_assume(m < 0x7ffffffe);
    u64 op = vf_pick("op", 0, 3);
    if (op == 0) {
        Node o; prior(o, nt); Snap e = snap(o);
        vf_ensure("a new node has no location", !o.position().defined());
        Node* r = &o.position(pos(7)); vf_ensure("setters return the object", vf_same_obj(r, &o));
        vf_ensure("the location is set", o.position() == pos(7)); same(o, e, nt, k);
    } else if (op == 1) {
        Way o; prior(o, nt); Snap e = snap(o);
        vf_ensure("a new way has no nodes", o.nodes().size() == 0);
        extra(o, m, j); o.add_node(vf_in_i64("ref")); same(o, e, nt, k); vf_ensure("a node is added", o.nodes().size() == m + 1);
    } else {
        Relation o; prior(o, nt); Snap e = snap(o);
        vf_ensure("a new relation has no members", o.members().size() == 0);
        extra(o, m, j); o.add_member('w', vf_in_i64("ref"), "r"); same(o, e, nt, k); vf_ensure("a member is added", o.members().size() == m + 1);
    }
    vf_cover("added");
}
