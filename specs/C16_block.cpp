// FLAGS: -I@V/specs/pbfw -I@V/stubs/geos
// NATIVE-FLAGS: -I@V/specs/pbfw -I@V/stubs/geos
// REPLACE: Osmium::Output::PBF::store_blob WITH blob
// REPLACE: Osmium::StringTable::store_stringtable WITH table_stored
// REPLACE: Osmium::StringTable::map_string_id WITH mapped
#include <vf.hpp>
#include "pbfw_env.hpp"
// A block with any contents is emitted: every id of a string in it becomes the final one, and nothing of it is left.
static bool g_table, g_sealed, g_cleared, g_info, g_seen; static u64 g_left[vfw::columns], g_next[4], g_objects[4], g_q, g_kv, g_users, g_strings; static int g_holds[3], g_obj, g_kind, g_granularity, g_date_granularity;
static u64 entries(const char* what, u64 i) { u64 n = vf_uf1(what, i); if (!vf_engine()) return n % 4; vf_assume(n < (1u << 30)); return n; }
static u64 entries(int c) { return c == vfw::keys || c == vfw::vals ? entries("tags", g_obj + 1000000000 * (u64)g_kind) : c == vfw::roles && g_kind == 3 ? entries("members", g_obj) : 0; }
static u32 interim(int c, u64 i) {
    u64 o = g_obj + 1000000000 * (u64)g_kind;
    u32 r = (u32)(c == vfw::keys ? vf_uf2("key", o, i) : c == vfw::vals ? vf_uf2("val", o, i) : c == vfw::roles ? vf_uf2("role", o, i) : c == vfw::user_sid ? vf_uf1("user", o) : c == vfw::d_user_sid ? vf_uf1("dense user", i) : vf_uf1("key or value", i));
    if (!vf_engine()) return c == vfw::d_kv && r % 3 == 0 ? 0 : 1 + r / 3 % (u32)g_strings;
    if (c == vfw::d_kv) vf_assume(r <= g_strings); else vf_assume(r - 1 < g_strings);
    return r;
}
#ifdef VF_ENGINE
static u32 final_id(u32 interim) { return (u32)vf_uf1("final", interim); }
extern "C" void table_stored(Osmium::StringTable*, OSMPBF::StringTable*) { vf_ensure("the string table is stored once", !g_table); g_table = true; }
extern "C" Osmium::StringTable::string_id_t mapped(const Osmium::StringTable*, Osmium::StringTable::string_id_t i) { vf_ensure("final ids are known after the table is stored", g_table); return (Osmium::StringTable::string_id_t)final_id(i); }
#else
static u32 final_id(u32 interim) { return g_out->string_table.m_id2id_map[interim]; }
#endif
static void complete() { vf_ensure("every string id of an object is mapped", g_left[vfw::keys] == 0 && g_left[vfw::vals] == 0 && g_left[vfw::roles] == 0 && g_left[vfw::user_sid] == 0); }
static void sealed() {
    complete();
    vf_ensure("a block is emitted once, with its string table", g_table && !g_sealed && !g_cleared); g_sealed = true;
    vf_ensure("the strings of all objects are mapped", g_next[1] == g_objects[1] && g_next[2] == g_objects[2] && g_next[3] == g_objects[3]);
    if (g_objects[0]) {
        vf_ensure("the users of all dense nodes are mapped", g_left[vfw::d_user_sid] == 0);
        vf_ensure("every key and value of a dense node is mapped", g_q >= g_kv || g_seen == (interim(vfw::d_kv, g_q) != 0));
    }
    vf_ensure("the block says how its numbers are scaled", g_granularity == g_out->location_granularity() && g_date_granularity == g_out->date_granularity());
}
#ifdef VF_ENGINE
extern "C" void blob(Out* o, const std::string& type, const google::protobuf::MessageLite& m) { vf_ensure("a block is emitted as data", type == "OSMData" && &m == &o->pbf_primitive_block); sealed(); }
#endif
static ssize_t vf_write(int, const void*, size_t n) { return (ssize_t)n; }
int deflateInit(z_stream*, int) { return Z_OK; } int deflate(z_stream* z, int) { z->total_out = 0; return Z_STREAM_END; } int deflateEnd(z_stream*) { return Z_OK; }
namespace vfw {
void group(int slot, int kind) { vf_ensure("groups keep their kind", slot < 3 && g_holds[slot] == kind); }
void begin(int kind, int i) {
    g_kind = kind;
    if (kind == 0) return;
    complete();
    vf_ensure("each object is mapped once", i >= 0 && (u64)i == g_next[kind]); ++g_next[kind]; g_obj = i;
    g_left[keys] = g_left[vals] = entries(keys); g_left[roles] = entries(roles); g_left[user_sid] = g_info;
}
int new_group() { vf_ensure("no group is added", false); return 3; }
int objects(int slot, int kind) { return g_holds[slot] == kind ? (int)g_objects[kind] : 0; } bool has_info() { return g_info; } void info() { vf_ensure("metadata is not added", g_info); }
int bytes() { return 0; } i64 get(int c, int i) { return interim(c, (u64)(u32)i); }
int size(int c) { return (int)(c == d_kv ? g_kv : c == d_user_sid ? g_users : entries(c)); }
void put(int c, i64 v) { vf_ensure("only string ids change", c == user_sid && g_left[c] == 1); g_left[c] = 0; vf_ensure("a string id becomes the final one", (u32)v == final_id(interim(c, 0))); }
void put_at(int c, int i, i64 v) {
    if (c == d_kv) { vf_ensure("the ends of the tag lists are kept", interim(c, i) != 0); vf_ensure("a string id becomes the final one", i >= 0 && (u64)i < g_kv && (u32)v == final_id(interim(c, i))); g_seen |= (u64)i == g_q; return; }
    u64 n = c == d_user_sid ? g_users : entries(c);
    vf_ensure("each string id is mapped once", (c == keys || c == vals || c == roles || c == d_user_sid) && g_left[c] != 0 && (u64)i == n - g_left[c]); --g_left[c];
    if (c == d_user_sid) vf_ensure("the users of dense nodes are deltas of final ids", (u32)v == final_id(interim(c, i)) - (u32)vf_unless0((u64)i, final_id(interim(c, (u64)(i - 1)))));
    else vf_ensure("a string id becomes the final one", (u32)v == final_id(interim(c, i)));
}
void cleared(int m) { if (m == m_block) { vf_ensure("a block is cleared after it was emitted", g_sealed); g_cleared = true; } } bool serialized(int m, std::string* s) { if (!vf_engine() && m == m_block) sealed(); *s = ""; return true; }
void text(int w, const std::string& t) { if (!vf_engine() && w == t_type) vf_ensure("a block is emitted as data", t == "OSMData"); } void number(int w, i64 v) { if (w == n_granularity) g_granularity = (int)v; if (w == n_date_granularity) g_date_granularity = (int)v; if (w == n_lat_offset || w == n_lon_offset) vf_ensure("the block says how its numbers are scaled", v == 0); }
void zlib(const char*, u64) {} void entry(const std::string&) { if (!vf_engine()) g_table = true; } void bbox() {}
}
static void block(int kind) {
    File f = a_file(vf_in_bool("history")); Out& out = a_writer(f); g_out = &out;
    OSMPBF::PrimitiveGroup* g = out.pbf_primitive_block.groups;
    for (int i = 0; i < 4; ++i) { g_next[i] = g_objects[i] = 0; if (i < 3) g_holds[i] = -1; }
    for (int i = 0; i < vfw::columns; ++i) g_left[i] = 0;
    g_table = g_sealed = g_cleared = g_seen = false; g_obj = 0; g_kind = kind; g_info = vf_in_bool("metadata"); g_granularity = g_date_granularity = 0;
    g_strings = vf_size("strings", 6); if (!vf_engine()) { ++g_strings; for (u64 i = 0; i < g_strings; ++i) { out.string_table.record_string(vf_dec(i)); if (vf_uf1("again", i) & 1) out.string_table.record_string(vf_dec(i)); } }
    g_kv = g_users = 0; g_q = 0;
    u64 n = vf_size("objects", 4); vf_assume(n <= 8000);
    if (kind == 0) { if (n) g_objects[0] = 1; g_kv = vf_size("keys and values", 8); g_q = vf_engine() ? vf_in_u64("q") : g_kv ? vf_in_u64("q") % g_kv : 0; g_users = g_left[vfw::d_user_sid] = g_info ? n : 0; if (!n) g_kv = g_users = 0; } else g_objects[kind] = n;
    int slot = kind <= 1 ? 0 : kind - 1;
    if (n) { g_holds[slot] = kind; if (slot == 0) out.pbf_nodes = g; else if (slot == 1) out.pbf_ways = g + 1; else out.pbf_relations = g + 2; }
    out.m_delta_id.m_value = (i64)vf_in_u64("sum of ids"); out.m_delta_lat.m_value = (i64)vf_in_u64("sum of latitudes"); out.m_delta_lon.m_value = (i64)vf_in_u64("sum of longitudes");
    out.m_delta_timestamp.m_value = (i64)vf_in_u64("sum of times"); out.m_delta_changeset.m_value = (i64)vf_in_u64("sum of changesets"); out.m_delta_uid.m_value = (i64)vf_in_u64("sum of users");
    out.primitive_block_contents = vf_in_u16("contents"); out.primitive_block_size = vf_in_u32("size");
    out.location_granularity((int)vf_in_i32("granularity")); out.date_granularity((int)vf_in_i32("date granularity"));
    auto seen = [](u64 k) -> u64 { return (k > g_q) & (interim(vfw::d_kv, g_q) != 0); }; vf_val(seen);
    auto user = [](u64 k) -> u64 { return vf_unless0(k, final_id(interim(vfw::d_user_sid, k - 1))); }; vf_val(user);
    out.store_primitive_block();
    vf_ensure("an emitted block is cleared", g_sealed && g_cleared);
    vf_ensure("the next block starts with new groups", !out.pbf_nodes && !out.pbf_ways && !out.pbf_relations && out.primitive_block_contents == 0 && out.primitive_block_size == 0);
    vf_ensure("the next block starts with new delta columns", out.m_delta_id.m_value == 0 && out.m_delta_lat.m_value == 0 && out.m_delta_lon.m_value == 0 && out.m_delta_timestamp.m_value == 0 && out.m_delta_changeset.m_value == 0 && out.m_delta_uid.m_value == 0 && out.m_delta_user_sid.m_value == 0);
    vf_ensure("the next block starts with an empty string table", out.string_table.m_size == 0 && out.string_table.m_strings.empty() && out.string_table.m_id2id_map.empty());
    vf_cover("emitted");
}
HARNESS(block_dense) { block(0); }
HARNESS(block_nodes) { block(1); }
HARNESS(block_ways) { block(2); }
HARNESS(block_relations) { block(3); }
