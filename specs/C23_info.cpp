// LIMIT: 300
#include <vf.hpp>
#include <vector>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <osmium/relations/relation_info.hpp>
using namespace Osmium::OSM; namespace R = Osmium::Relations;
// what a relation info remembers of a relation and its members, step by step from any state
static shared_ptr<Relation const> a_relation(u64 m) { Relation* r = new Relation(); for (u64 i = 0; i < m; ++i) r->add_member('n', (i64)i, ""); return shared_ptr<Relation const>(r); }
HARNESS(made) {
    u64 m = vf_size("members", 6), k = vf_in_u64("k"); shared_ptr<Relation const> r = a_relation(m); R::RelationInfo i(r), e;
    vf_ensure("a relation info has its relation and a place for each member", i.relation().get() == r.get() && i.members().size() == m && i.need_members() == 0);
    if (k < m) vf_ensure("the places are empty at first", !i.members()[k]);
    vf_ensure("a dropped one has nothing", !e.relation() && e.members().size() == 0 && e.need_members() == 0 && e.has_all_members());
    int n = (int)(vf_in_u32("need") & 0xfffffff); i.m_need_members = n; i.need_member();
    vf_ensure("a member that is needed is counted", i.need_members() == n + 1 && !i.has_all_members()); vf_cover("made");
}
HARNESS(added) {
    u64 m = vf_size("members", 6) + 1, n = vf_engine() ? vf_in_u64("n") : vf_in_u64("n") % m, k = vf_engine() ? vf_in_u64("k") : vf_in_u64("k") % m; vf_assume(n < m && k < m);
    shared_ptr<Relation const> r = a_relation(m); R::RelationInfo i(r); int need = (int)(vf_in_u32("need") & 0xfffffff) % 4 + 1; i.m_need_members = need;
    shared_ptr<Object const> o(new Node()), p(new Way()); if (!vf_engine()) i.m_members[k] = p;
    bool last = i.add_member(o, (osm_sequence_id_t)n);
    vf_ensure("the object is kept at its position", i.members()[n].get() == o.get());
    if (k != n) vf_ensure("members at other positions stay", vf_engine() ? !i.members()[k] : i.members()[k].get() == p.get());
    vf_ensure("one member less is needed, and the last one is told", i.need_members() == need - 1 && last == (need == 1) && i.has_all_members() == last);
    vf_ensure("nothing else changes", i.members().size() == m && i.relation().get() == r.get()); vf_cover("added");
}
