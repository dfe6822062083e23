#include <vf.hpp>
#include <osmium/osm/node.hpp>
using namespace Osmium::OSM;
static std::string key(u64 i) { return vf_strs("key", i); }
static std::string val(u64 i) { return vf_strs("value", i); }
static std::string text(const char* p) { return std::string(p); }
static bool tag_is(const Tag& t, u64 i) { return text(t.key()) == key(i) && text(t.value()) == val(i); }
static void fill(TagList& l, u64 from, u64 n) { for (u64 i = 0; i < n; ++i) l.add(key(from + i).c_str(), val(from + i).c_str()); }
static u64 index(u64 n) { return vf_engine() ? vf_in_u64("k") : (n ? vf_in_u64("k") % n : 0); }

HARNESS(add) {
    u64 n = vf_size("n", 6), k = index(n);
    TagList l;
    vf_ensure("a new list is empty", l.empty() && l.size() == 0 && l.begin() == l.end());
    vf_assume(n < 0x7fffffff);
    fill(l, 0, n);
    vf_ensure("the list has as many tags as were added", l.size() == (int)n && l.empty() == (n == 0) && l.end() - l.begin() == n);
    const TagList& c = l;
    vf_ensure("the list has as many tags as were added", c.end() - c.begin() == n);
    if (k < n) {
        vf_ensure("tags are kept unchanged in the order they were added", tag_is(l[(int)k], k) && tag_is(c[(int)k], k) && tag_is(c.begin()[k], k) && tag_is(l.begin()[k], k));
        Tag same(key(k).c_str(), val(k).c_str()), other(key(k + 1).c_str(), val(k + 1).c_str());
        vf_ensure("tags are equal exactly if key and value are", c[(int)k] == same && !(c[(int)k] != same) && (same == other) == (key(k) == key(k + 1) && val(k) == val(k + 1)));
        vf_cover("tag");
    }
    l.clear();
    vf_ensure("clearing removes all tags", l.empty() && l.size() == 0 && l.begin() == l.end() && l.get_value_by_key(key(k).c_str()) == 0);
    // starting over
    u64 m = vf_size("m", 4); vf_assume(m < 0x7fffffff);
    fill(l, n, m);
    vf_ensure("clearing removes all tags", l.size() == (int)m);
    if (k < m) vf_ensure("tags are kept unchanged in the order they were added", tag_is(c[(int)k], n + k));
}
HARNESS(copy) {
    u64 n = vf_size("n", 6), k = index(n); vf_assume(n < 0x7fffffff);
    Node node;
    u64 how = vf_in_u8("how");
    TagList l, old;
    fill(l, 0, n); old.add("x", "y");
    if (how == 0) { node.tags(l); }
    else if (how == 1) { TagList l2(l); node.tags() = l2; }
    else { fill(node.tags(), 0, n); }
    Node copy(node);
    old = l;
    node.tags().clear();
    vf_ensure("copying a list copies all tags", copy.tags().size() == (int)n && old.size() == (int)n && l.size() == (int)n);
    vf_ensure("a copy is independent of the original", node.tags().size() == 0);
    if (k < n) { vf_ensure("copying a list copies all tags", tag_is(copy.tags()[(int)k], k) && tag_is(old[(int)k], k) && tag_is(l[(int)k], k)); vf_cover("copied"); }
}
HARNESS(lookup) {
    u64 n = vf_size("n", 6); vf_assume(n < 0x7fffffff);
    std::string q = vf_engine() ? vf_str("q") : (n && vf_in_bool("known") ? key(vf_in_u64("which") % n) : vf_str("q"));
    TagList l;
    fill(l, 0, n);
    auto hit = [q](u64 i) -> bool { return key(i) == q; };
    VF_INV(K > n || vf_first(n, n, hit) == vf_first(n, n - K, hit)); VF_INV(K > n || vf_first(n, n, hit) == (K > 0 && hit(K - 1) ? K : vf_first(n, n - K, hit)));
    const char* r = l.get_value_by_key(q.c_str());
    u64 f = vf_first(n, n, hit);
    vf_ensure("a key that no tag has gives null", (r == 0) == (f == 0));
    if (f) { vf_ensure("a key gives the value of the first tag that has it", text(r) == val(f - 1)); vf_cover("found"); }
    else vf_cover("missing");
    vf_ensure("looking up a key leaves the list unchanged", l.size() == (int)n);
}
