#include <vf.hpp>
#include <osmium/osm/relation.hpp>
using namespace Osmium::OSM;
static std::string text(const char* p) { return std::string(p); }
static std::string role(u64 i) { return vf_strs("role", i); }
static char type(u64 i) { return vf_engine() ? (char)vf_uf1("type", i) : "nwrx"[vf_uf1("type", i) % 4]; }
static i64 ref(u64 i) { return vf_i64s("ref", i); }
static const u64 MAXROLE = 255 * 4 + 1;
static bool is(const RelationMember& m, u64 i) { return m.type() == type(i) && m.ref() == ref(i) && text(m.role()) == role(i); }
static u64 index(u64 n) { return vf_engine() ? vf_in_u64("k") : (n ? vf_in_u64("k") % n : 0); }
template <class R> static void fill(R& r, u64 n) { for (u64 i = 0; i < n; ++i) { vf_assume(role(i).size() <= MAXROLE); r.add_member(type(i), ref(i), role(i).c_str()); } }

HARNESS(add) {
    u64 n = vf_size("n", 6), k = index(n); vf_assume(n < 0x7fffffff);
    Relation r; r.id(vf_in_i64("id"));
    i64 id = r.id();
    vf_ensure("a new relation has no members", r.members().size() == 0 && r.members().begin() == r.members().end());
    VF_INV(r.members().end() - r.members().begin() == K);
    VF_INV(k >= K || is(r.members().begin()[k], k));
    fill(r, n);
    vf_ensure("a relation has as many members as were added", r.members().size() == n && r.members().end() - r.members().begin() == n);
    vf_ensure("adding members changes nothing else", r.id() == id && r.version() == 0 && r.tags().size() == 0);
    if (k < n) {
        const RelationMemberList& l = r.members();
        vf_ensure("members keep type, reference, role and order", is(l[(int)k], k) && is(l.begin()[k], k) && is(*r.get_member(k), k));
        vf_cover("member");
    }
    vf_ensure("there is no member behind the last", r.get_member(n) == 0);
    // one more, with a role of any length
    bool threw = false;
    try { r.add_member(type(n), ref(n), role(n).c_str()); } catch (std::length_error&) { threw = true; }
    vf_ensure("a role that is too long is reported, and no other", threw == (role(n).size() > MAXROLE));
    vf_ensure("a member that cannot be added leaves no trace", r.members().size() == n + !threw);
    if (threw) vf_cover("too long");
    if (k < n) vf_ensure("adding a member keeps the others", is(r.members()[(int)k], k));
    if (!threw) { vf_ensure("members keep type, reference, role and order", is(r.members()[(int)n], n)); vf_cover("one more"); }
}
HARNESS(copy) {
    u64 n = vf_size("n", 6), k = index(n); vf_assume(n < 0x7fffffff);
    Relation r;
    VF_INV(r.members().end() - r.members().begin() == K);
    VF_INV(k >= K || is(r.members().begin()[k], k));
    fill(r, n);
    Relation c(r);
    RelationMemberList l(r.members()), a;
    a.add_member('n', 1, "x");
    a = r.members();
    r.add_member('n', 1, "x");
    vf_ensure("copying a relation copies all members", c.members().size() == n && l.size() == n && a.size() == n);
    if (k < n) { vf_ensure("copying a relation copies all members", is(c.members()[(int)k], k) && is(l[(int)k], k) && is(a[(int)k], k)); vf_cover("copied"); }
    l.clear();
    vf_ensure("clearing removes all members", l.size() == 0 && l.begin() == l.end());
    u64 m = vf_size("m", 4); vf_assume(m < 0x7fffffff);
    VF_INV(l.end() - l.begin() == K);
    VF_INV(k >= K || is(l.begin()[k], k));
    fill(l, m);
    vf_ensure("clearing removes all members", l.size() == m);
    if (k < m) vf_ensure("members keep type, reference, role and order", is(l[(int)k], k));
}
HARNESS(member) {
    RelationMember m; m.type(type(0)); m.ref(ref(0));
    if (role(0).size() <= MAXROLE) m.role(role(0).c_str()); else { m.role(""); vf_assume(role(0).size() == 0); }
    u64 what = vf_in_u8("what");
    bool threw = false; bool ok = true;
    if (what == 0) { RelationMember& x = m.type(type(1)); ok = vf_same_obj(&x, &m); }
    else if (what == 1) { RelationMember& x = m.ref(ref(1)); ok = vf_same_obj(&x, &m); }
    else { what = 2; try { RelationMember& x = m.role(role(1).c_str()); ok = vf_same_obj(&x, &m); } catch (std::length_error&) { threw = true; } }
    vf_ensure("a setter of a member returns the member", ok);
    vf_ensure("setting one field of a member sets that field and nothing else", m.type() == type(what == 0) && m.ref() == ref(what == 1) && text(m.role()) == role(what == 2 && !threw));
    vf_ensure("a role that is too long is reported, and no other", threw == (what == 2 && role(1).size() > MAXROLE));
    std::string name = m.type_name();
    vf_ensure("the name of the member type follows from the type", name == (m.type() == 'n' ? "node" : m.type() == 'w' ? "way" : m.type() == 'r' ? "relation" : "unknown"));
    vf_cover("member");
}
