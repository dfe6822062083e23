// FLAGS: -I@V/specs/table
// NATIVE-FLAGS: -I@V/specs/table
#include <vf.hpp>
#ifndef VF_NATIVE
extern "C" void vf_order(u64 gen, u64 n);
#define VF_MAP_ORDER(gen, n) vf_order(gen, n)
static u64 g_gen;
#define VF_MAP_BEGIN(gen) (g_gen = (gen))
#endif
#include <string>
#include <vector>
static void stored(const std::string& s);
namespace vfw { static inline void put(const std::string& s) { stored(s); } }
#include <osmpbf/osmpbf.h>
#include <osmium/utils/stringtable.hpp>
typedef Osmium::StringTable Table;
// what the strings of a table are: the s-th one recorded for the first time, and how often it was recorded again
static std::string str(u64 s) { return vf_strs("string", s); }
static u16 count(u64 s) { return (u16)vf_uf1("count", s); }
static u64 g_n, *g_entry;                                    // the stored table
static std::vector<std::string> g_strings;
static void stored(const std::string& s) {
#ifdef VF_NATIVE
    g_strings.push_back(s);
#else
    g_entry[g_n] = std::vf_key(s);
#endif
    ++g_n;
}
static bool entry(u64 i, const std::string& s) {
#ifdef VF_NATIVE
    return g_strings[i] == s;
#else
    return g_entry[i] == std::vf_key(s);
#endif
}
#ifdef VF_NATIVE
static void forge(Table& t, u64 n) { for (u64 s = 0; s < n; ++s) { t.record_string(str(s)); for (u64 c = count(s) % 4; c > 0; --c) t.record_string(str(s)); } }
static void known(Table&, u64, const std::string&) {}
#else
static void forge(Table& t, u64 n) {
    typedef std::pair<const std::string, Table::string_info> P;
    for (u64 s = 0; s < n; ++s) { Table::string_info i; i.count = count(s); i.interim_id = (u32)(s + 1); ::new ((void*)(t.m_strings.items + s)) P(str(s), i); }
    t.m_strings.n = n; t.m_size = (int)n;
    t.m_strings.slot = (u64*)vf_new_region(8, "slots of the table");
}
// the slot of a string, in a table of n strings
static void known(Table& t, u64 n, const std::string& x) {
    u64 s = t.m_strings.slot[std::vf_key(x)]; vf_assume(s <= n); if (s) vf_assume(str(s - 1) == x);
}
#endif
static void invariant(Table& t, u64 n, u64 z) {
#ifndef VF_NATIVE
    vf_ensure("the number of interim ids is the number of strings", t.m_size == (int)t.m_strings.size());
    if (z < t.m_strings.size()) {
        vf_ensure("interim ids count the strings", t.m_strings.items[z].second.interim_id == z + 1);
        vf_ensure("a string is found in the table", t.m_strings.slot[std::vf_key(t.m_strings.items[z].first)] == z + 1);
    }
#endif
}
HARNESS(record) {
    Table t; u64 n = vf_size("strings", 6); vf_assume(n < 0x7ffffff0); forge(t, n); u64 z = vf_in_u64("z");
    std::string x = vf_str("x"), y = vf_str("y"); known(t, n, x); known(t, n, y);
#ifndef VF_NATIVE
    if (z < n) vf_assume(t.m_strings.slot[std::vf_key(str(z))] == z + 1);
#endif
    u32 a = t.record_string(x); invariant(t, n, z); u32 b = t.record_string(y), c = t.record_string(x);
    vf_ensure("an interim id is never zero", a != 0 && b != 0);
    vf_ensure("equal strings have the same interim id", a == c && (!(x == y) || a == b));
    vf_ensure("different strings have different interim ids", x == y || a != b);
    vf_ensure("interim ids go up to the number of strings", a <= n + 1 && b <= n + 2);
    vf_cover("recorded"); if (a <= n) vf_cover("known string"); else vf_cover("new string");
}
HARNESS(start) {
    Table t; u64 n = vf_size("strings", 6); vf_assume(n < 0x7ffffff0); bool again = vf_in_bool("cleared"); if (again) { forge(t, n); t.clear(); }
    std::string x = vf_str("x"), y = vf_str("y");
    u32 a = t.record_string(x), b = t.record_string(y);
    vf_ensure("an empty table starts with interim id one", a == 1 && b == (x == y ? 1 : 2));
    if (again) vf_cover("cleared"); else vf_cover("new");
}
HARNESS(store) {
    Table t; u64 n = vf_size("strings", 6); vf_assume(n < 0x7ffffff0); forge(t, n); u64 z = vf_engine() ? vf_in_u64("z") : n ? vf_in_u64("z") % n : 0;
    std::string x = str(z); u32 id = 0;
    if (!vf_engine() && n) { id = t.record_string(x); } else id = (u32)(z + 1);
    g_n = 0; g_strings.clear(); OSMPBF::StringTable st;
    u64 distinct = t.m_strings.size();
#ifndef VF_NATIVE
    vf_order(t.m_strings.gen, n);
    g_entry = (u64*)vf_new_region(8, "entries of the stored table");
    VF_INV(g_n == K + 1);
    VF_INV(z >= n || t.m_id2id_map.begin()[z + 1] <= K);
    VF_INV(z >= n || t.m_id2id_map.begin()[z + 1] == 0 || g_entry[t.m_id2id_map.begin()[z + 1]] == std::vf_key(str(z)));
    VF_INV(z >= n || K <= vf_pure2("ord_rank", g_gen, vf_pure2("ord_rank", t.m_strings.gen, z)) || t.m_id2id_map.begin()[z + 1] != 0);
#endif
    t.store_stringtable(&st);
#ifndef VF_NATIVE
    vf_clear_inv(); vf_order(g_gen, n);                       // n elements were added to the multimap
#endif
    vf_ensure("entry 0 is the empty string", entry(0, ""));
    vf_ensure("the table has one entry per string", g_n == distinct + 1);
    if (z < n) {
        u32 f = t.map_string_id(id);
        vf_ensure("the final id is an index of the table", f >= 1 && f <= distinct);
        vf_ensure("the final id is the index of the string", entry(f, x));
        vf_cover("mapped");
    } else vf_cover("empty");
}
