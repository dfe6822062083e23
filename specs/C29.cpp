// FLAGS: -I@V/stubs/geos
// NATIVE-FLAGS: -I@V/stubs/geos
#include <vf.hpp>
static unsigned long long g_killed_a, g_killed_b, g_killed_other; static void killed(const void*, int);
#define VF_GEOS_DATA int what = 0;
#define VF_GEOS_DTOR killed(this, what);
#include <osmium/osm/area.hpp>
using namespace Osmium::OSM;
static const i64 LIM = (i64)1 << 62;
// ids for which twice the id (and one more) is an id
static i64 anid(const char* n) { i64 v = vf_in_i64(n); vf_assume(v > -LIM && v < LIM); return v; }
static Way way(i64 id) { Way w; w.id(id); w.version(vf_in_i32("version")); w.changeset(vf_in_i32("changeset")); w.uid(vf_in_i32("uid")); w.timestamp(vf_in_i64("timestamp")); w.visible(vf_in_bool("visible")); return w; }
static Relation rel(i64 id) { Relation w; w.id(id); w.version(vf_in_i32("version")); w.changeset(vf_in_i32("changeset")); w.uid(vf_in_i32("uid")); w.timestamp(vf_in_i64("timestamp")); w.visible(vf_in_bool("visible")); return w; }

HARNESS(from_way) {
    i64 id = anid("id"); Way w(way(id)); Area a(w);
    vf_ensure("the id of an area made from a way is twice the id of the way", a.id() == 2 * id);
    vf_ensure("an area made from a way knows it", a.from_way());
    vf_ensure("the id of the way is recovered", a.orig_id() == id);
    vf_ensure("an area is of type area", a.type() == AREA);
    vf_ensure("an area has the attributes of the way", a.version() == w.version() && a.changeset() == w.changeset() && a.uid() == w.uid() && a.timestamp() == w.timestamp() && a.visible() == w.visible());
    vf_ensure("the way is not changed", w.id() == id);
    if (id < 0) vf_cover("negative"); else vf_cover("positive");
}
HARNESS(from_relation) {
    i64 id = anid("id"); vf_assume(id != 0); Relation w(rel(id)); Area a(w);
    vf_ensure("the id of an area made from a relation is twice the id plus or minus one", a.id() == 2 * id + (id > 0 ? 1 : -1));
    vf_ensure("an area made from a relation knows it", !a.from_way());
    vf_ensure("the id of the relation is recovered", a.orig_id() == id);
    vf_ensure("an area is of type area", a.type() == AREA);
    vf_ensure("an area has the attributes of the relation", a.version() == w.version() && a.changeset() == w.changeset() && a.uid() == w.uid() && a.timestamp() == w.timestamp() && a.visible() == w.visible());
    vf_ensure("the relation is not changed", w.id() == id);
    if (id < 0) vf_cover("negative"); else vf_cover("positive");
}
HARNESS(distinct) {
    i64 i = anid("i"), j = anid("j"), k = anid("k"), l = anid("l"); vf_assume(k != 0 && l != 0);
    Area a(way(i)), b(way(j)), c(rel(k)), d(rel(l));
    vf_ensure("areas from different ways never share an id", i == j || a.id() != b.id());
    vf_ensure("areas from different relations never share an id", k == l || c.id() != d.id());
    vf_ensure("an area from a way and one from a relation never share an id", a.id() != c.id());
    vf_ensure("the sign of the id is kept", (a.id() < 0) == (i < 0) && (c.id() < 0) == (k < 0));
    vf_cover("distinct");
}

// copies: what the geometry of an area is, and what becomes of it
static const void *g_a, *g_b;
static void killed(const void* p, int) { if (p == g_a) ++g_killed_a; else if (p == g_b) ++g_killed_b; else ++g_killed_other; }
typedef geos::geom::MultiPolygon MP;
static MP* geometry(int what) { MP* m = new MP; m->what = what; return m; }
static void full(Area& a, const char* x, bool two) {
    a.version(vf_in_i32(two ? "version2" : "version1")); a.changeset(vf_in_i32(two ? "changeset2" : "changeset1")); a.uid(vf_in_i32(two ? "uid2" : "uid1")); a.timestamp(vf_in_i64(two ? "timestamp2" : "timestamp1")); a.endtime(vf_in_i64(two ? "endtime2" : "endtime1")); a.visible(vf_in_bool(two ? "visible2" : "visible1"));
    a.user(x);
}
static void same(const Area& a, const Area& b) {
    vf_ensure("a copy has the id", a.id() == b.id() && a.from_way() == b.from_way() && a.orig_id() == b.orig_id());
    vf_ensure("a copy has the attributes", a.version() == b.version() && a.changeset() == b.changeset() && a.uid() == b.uid() && a.timestamp() == b.timestamp() && a.endtime() == b.endtime() && a.visible() == b.visible());
    vf_ensure("a copy has the user", std::string(a.user()) == std::string(b.user()));
}
static void geometries(const Area& a, const Area& b, MP* m) {
    vf_ensure("the original keeps its geometry", b.geos_geometry() == m && g_killed_b == 0 && (!m || m->what == 7));
    vf_ensure("a copy has a geometry exactly if the original has one", (a.geos_geometry() != 0) == (m != 0));
    if (m) { vf_ensure("the geometry of a copy is its own", a.geos_geometry() != m && a.geos_geometry() != g_a); vf_ensure("the geometry of a copy is equal", a.geos_geometry()->what == 7); }
}
static void tagged(Object& o, u64 nt) { for (u64 i = 0; i < nt; ++i) o.tags().add(vf_strs("tk", i).c_str(), vf_strs("tv", i).c_str()); }
static void tags(const Object& a, u64 nt, u64 k) {
    vf_ensure("an area has the tags of the object it is made from", a.tags().end() - a.tags().begin() == nt && (k >= nt || (std::string(a.tags().begin()[k].key()) == vf_strs("tk", k) && std::string(a.tags().begin()[k].value()) == vf_strs("tv", k))));
}
static u64 index(u64 n) { return vf_engine() ? vf_in_u64("k") : (n ? vf_in_u64("k") % n : 0); }
HARNESS(tags_kept) {
    u64 nt = vf_size("ntags", 4), k = index(nt); vf_assume(nt < 0x7fffffff); bool w = vf_in_bool("way");
    g_a = g_b = &g_a;
    if (w) { Way o(way(anid("id"))); tagged(o, nt); Area a(o); tags(a, nt, k); Area b(a); tags(b, nt, k); Area c(way(anid("other"))); c.tags().add("some", "thing"); c = a; tags(c, nt, k); vf_cover("way"); }
    else { Relation o(rel(anid("id"))); tagged(o, nt); Area a(o); tags(a, nt, k); Area b(a); tags(b, nt, k); Area c(way(anid("other"))); c.tags().add("some", "thing"); c = a; tags(c, nt, k); vf_cover("relation"); }
}
HARNESS(copy) {
    bool with = vf_in_bool("with"); MP* m = with ? geometry(7) : 0; g_b = m; g_a = &g_a; g_killed_a = g_killed_b = g_killed_other = 0;
    {
        Area b(way(anid("id"))); full(b, vf_in_bool("named") ? "someone" : "", false); b.geos_geometry(m);
        {
            Area a(b); same(a, b); geometries(a, b, m);
        }
        vf_ensure("a copy destroys its own geometry only", g_killed_b == 0 && g_killed_other == (with ? 1 : 0));
    }
    vf_ensure("the geometry is destroyed with the area, once", g_killed_b == (with ? 1 : 0) && g_killed_other == (with ? 1 : 0));
    if (with) vf_cover("with a geometry"); else vf_cover("without a geometry");
}
HARNESS(assign) {
    bool with = vf_in_bool("with"), had = vf_in_bool("had"); MP *m = with ? geometry(7) : 0, *o = had ? geometry(5) : 0; g_b = m; g_a = o ? (const void*)o : (const void*)&g_a; g_killed_a = g_killed_b = g_killed_other = 0;
    {
        Area b(way(anid("id"))); full(b, vf_in_bool("named") ? "someone" : "", false); b.geos_geometry(m);
        {
            Area a(way(anid("other"))); full(a, vf_in_bool("other_named") ? "other" : "", true); a.geos_geometry(o);
            Area& r = (a = b); vf_ensure("assignment returns the area", &r == &a);
            same(a, b); geometries(a, b, m);
            vf_ensure("assignment destroys the geometry the area had, once", g_killed_a == (had ? 1 : 0) && g_killed_other == 0);
        }
        vf_ensure("a copy destroys its own geometry only", g_killed_b == 0 && g_killed_a == (had ? 1 : 0) && g_killed_other == (with ? 1 : 0));
    }
    vf_ensure("the geometry is destroyed with the area, once", g_killed_b == (with ? 1 : 0));
    if (with) vf_cover("with a geometry"); else vf_cover("without a geometry");
    if (had) vf_cover("with a geometry before"); else vf_cover("without a geometry before");
}
