// FLAGS: -I@V/specs/pbfw -I@V/stubs/geos
// NATIVE-FLAGS: -I@V/specs/pbfw -I@V/stubs/geos
// REPLACE: Osmium::Output::PBF::store_primitive_block WITH stored
// REPLACE: Osmium::Output::PBF::lonlat2int WITH scaled_position
// REPLACE: Osmium::Output::PBF::timestamp2int WITH scaled_time
// REPLACE: Osmium::StringTable::record_string WITH recorded
#include <vf.hpp>
#include "pbfw_env.hpp"
// One object is written in any state of the writer that its invariant allows: the delta columns have the sum the writer
// remembers, the groups it points to are those of the block. What goes into the messages must decode to the object.
static bool g_info, g_metadata, g_versions, g_wants_dense, g_begun, g_stored; static int g_kind, g_slot; static bool g_alive[4]; static int g_holds[4];
static u64 g_tags, g_n; static u64 g_cnt[vfw::columns]; static bool g_dense_sums;
static i64 g_id; static u64 g_version; static i64 g_time; static i32 g_uid, g_changeset; static std::string g_user; static bool g_visible; static i64 g_lat, g_lon, g_timestamp;
static i64 s_id, s_lat, s_lon, s_timestamp, s_changeset, s_uid;         // sums of the delta columns of the dense nodes
static std::string key(u64 i) { return vf_strs("key", i); } static std::string val(u64 i) { return vf_strs("val", i); } static std::string role(u64 i) { return vf_strs("role", i); }
static i64 ref(u64 i) { return vf_i64s("ref", i); } static char mtype(u64 i) { return vf_engine() ? (char)vf_uf1("type", i) : "nwrnwrx"[vf_uf1("type", i) % 7]; }
// the interim id a string has in the string table (C26), and the scaled numbers (C16_round)
#ifdef VF_ENGINE
static u32 interim(const std::string& s) { u32 r = (u32)vf_s_fn1("interim", s.h); vf_assume(r - 1 < 0x7ffffffeu); return r; }
extern "C" Osmium::StringTable::string_id_t recorded(Osmium::StringTable*, const std::string& s) { return (Osmium::StringTable::string_id_t)interim(s); }
extern "C" i64 scaled_position(Out*, double d) { return (i64)vf_pure1("scaled position", vf_d2bits(d)); }
extern "C" i64 scaled_time(Out*, time_t t) { return (i64)vf_pure1("scaled time", (u64)t); }
#else
static u32 interim(const std::string& s) { auto i = g_out->string_table.m_strings.find(s); return i == g_out->string_table.m_strings.end() ? 0 : i->second.interim_id; }
#endif
static void new_block() {
    vf_ensure("a block is emitted before the data of an object, not in between", !g_begun && !g_stored);
    g_stored = true; for (int i = 0; i < 4; ++i) { g_alive[i] = false; g_holds[i] = -1; }
    s_id = s_lat = s_lon = s_timestamp = s_changeset = s_uid = 0;
}
#ifdef VF_ENGINE
// what C16_block proves
extern "C" void stored(Out* o) {
    new_block();
    o->m_delta_id.m_value = 0; o->m_delta_lat.m_value = 0; o->m_delta_lon.m_value = 0; o->m_delta_timestamp.m_value = 0; o->m_delta_changeset.m_value = 0; o->m_delta_uid.m_value = 0; o->m_delta_user_sid.m_value = 0;
    o->primitive_block_contents = 0; o->primitive_block_size = 0; o->pbf_nodes = 0; o->pbf_ways = 0; o->pbf_relations = 0;
}
#endif
static ssize_t vf_write(int, const void*, size_t n) { return (ssize_t)n; }
int deflateInit(z_stream*, int) { return Z_OK; } int deflate(z_stream* z, int) { z->total_out = 0; return Z_STREAM_END; } int deflateEnd(z_stream*) { return Z_OK; }
namespace vfw {
void group(int slot, int kind) { vf_ensure("objects go into a group of the block", g_alive[slot]); vf_ensure("a group has objects of one kind", kind == g_kind && (g_holds[slot] == kind || g_holds[slot] == -1)); g_holds[slot] = kind; g_slot = slot; }
void begin(int kind, int i) { if (kind) { vf_ensure("an object is added once", i < 0 && !g_begun); } g_begun = true; }
int new_group() { g_alive[3] = true; g_holds[3] = -1; if (g_kind <= 1) s_id = s_lat = s_lon = s_timestamp = s_changeset = s_uid = 0; return 3; }
int objects(int slot, int kind) { return 0; } bool has_info() { return g_info; } void info() { vf_ensure("metadata is written if wanted", g_metadata); g_info = true; }
int bytes() { return (int)vf_in_i32("bytes"); } i64 get(int, int) { return 0; } int size(int c) { return (int)g_cnt[c]; } void put_at(int, int, i64) { vf_ensure("what was put is not changed", g_stored && !vf_engine()); }
void cleared(int m) { if (!vf_engine() && m == m_block) new_block(); } bool serialized(int, std::string* s) { *s = ""; return true; }
void text(int, const std::string&) {} void number(int, i64) {} void zlib(const char*, u64) {} void entry(const std::string&) {} void bbox() {}
static i64 expected(int c, u64 j) {
    switch (c) {
        case vfw::id: return g_id; case vfw::lat: return g_lat; case vfw::lon: return g_lon;
        case keys: return interim(key(j)); case vals: return interim(val(j));
        case version: return (i32)g_version; case timestamp: return g_timestamp; case changeset: return g_changeset; case uid: return g_uid; case user_sid: return interim(g_user); case visible: return g_visible;
        case refs: return (i64)((u64)ref(j) - vf_unless0(j, (u64)ref(j - 1)));
        case roles: return (i32)interim(role(j)); case memids: return (i64)((u64)ref(j) - vf_unless0(j, (u64)ref(j - 1)));
        case types: return mtype(j) == 'n' ? 0 : mtype(j) == 'w' ? 1 : mtype(j) == 'r' ? 2 : -1;
        case d_id: return (i64)((u64)g_id - (u64)s_id); case d_lat: return (i64)((u64)g_lat - (u64)s_lat); case d_lon: return (i64)((u64)g_lon - (u64)s_lon);
        case d_version: return (i32)g_version; case d_timestamp: return (i64)((u64)g_timestamp - (u64)s_timestamp); case d_changeset: return (i64)((u64)(i64)g_changeset - (u64)s_changeset);
        case d_uid: return (i32)((u32)g_uid - (u32)s_uid); case d_user_sid: return (i32)interim(g_user); case d_visible: return g_visible;
    }
    return 0;
}
void put(int c, i64 v) {
    vf_ensure("values are put into an object that was begun", g_begun);
    u64 j = g_cnt[c]++;
    if (c == d_kv) {
        u64 t = j >> 1;
        if (t >= g_tags) vf_ensure("the tags of a dense node end with one terminator", j == 2 * g_tags && v == 0);
        else if (j & 1) vf_ensure("a value put into a column decodes to that of the object", v == (i32)interim(val(t))); else vf_ensure("a value put into a column decodes to that of the object", v == (i32)interim(key(t)));
    } else vf_ensure("a value put into a column decodes to that of the object", v == expected(c, j));
}
}
template <class T> static void object(T& o, Out& out, int kind, bool tags) {
    g_out = &out; g_kind = kind; g_wants_dense = kind == 0;
    g_id = (i64)vf_in_u64("id"); g_version = vf_in_u32("version"); g_time = (i64)vf_in_u64("time"); g_uid = vf_in_i32("uid"); g_changeset = vf_in_i32("changeset"); g_user = vf_str("user"); g_visible = vf_in_bool("visible");
    vf_assume(g_user.size() <= 255 * 4);
    o.id(g_id).version((u32)g_version).timestamp((time_t)g_time).uid(g_uid).changeset(g_changeset).user(g_user.c_str()).visible(g_visible);
    g_tags = tags ? vf_size("tags", 3) : 0; g_n = tags ? 0 : vf_size("refs", 4);
    for (u64 i = 0; i < g_tags; ++i) o.tags().add(key(i).c_str(), val(i).c_str());
    for (int i = 0; i < vfw::columns; ++i) g_cnt[i] = 0;
    g_metadata = vf_in_bool("metadata"); out.should_add_metadata(g_metadata); out.use_dense_format(kind == 0);
    g_timestamp = out.timestamp2int((time_t)g_time);
    // the state of the writer
    out.primitive_block_contents = vf_in_u16("contents"); if (!vf_engine() && vf_in_bool("nearly full")) out.primitive_block_contents = 7995 + out.primitive_block_contents % 8;
    if (!vf_engine() && out.primitive_block_contents > 8000) out.primitive_block_contents %= 8001;
    vf_assume(out.primitive_block_contents <= 8000); out.primitive_block_size = vf_in_u32("size");
    out.m_delta_id.m_value = s_id = (i64)vf_in_u64("sum of ids"); out.m_delta_lat.m_value = s_lat = (i64)vf_in_u64("sum of latitudes"); out.m_delta_lon.m_value = s_lon = (i64)vf_in_u64("sum of longitudes");
    out.m_delta_timestamp.m_value = s_timestamp = (i64)vf_in_u64("sum of times"); out.m_delta_changeset.m_value = s_changeset = (i64)vf_in_u64("sum of changesets"); out.m_delta_uid.m_value = s_uid = (i64)vf_in_u64("sum of users");
    for (int i = 0; i < 4; ++i) { g_alive[i] = false; g_holds[i] = -1; }
    bool has = vf_in_bool("has group"), other = vf_in_bool("has other groups");
    OSMPBF::PrimitiveGroup* g = out.pbf_primitive_block.groups;
    if (has || other) vf_assume(out.primitive_block_contents > 0);
    if (kind != 2 && kind != 3 ? has : other) { g_alive[0] = true; g_holds[0] = kind == 1 ? 1 : 0; out.pbf_nodes = g; } else { out.m_delta_id.m_value = 0; out.m_delta_lat.m_value = 0; out.m_delta_lon.m_value = 0; out.m_delta_timestamp.m_value = 0; out.m_delta_changeset.m_value = 0; out.m_delta_uid.m_value = 0; s_id = s_lat = s_lon = s_timestamp = s_changeset = s_uid = 0; }
    if (kind == 2 ? has : other) { g_alive[1] = true; g_holds[1] = 2; out.pbf_ways = g + 1; }
    if (kind == 3 ? has : other) { g_alive[2] = true; g_holds[2] = 3; out.pbf_relations = g + 2; }
    g_info = g_begun = g_stored = false;
}
static u64 g_before;
static void done(int c, u64 n) { vf_ensure("every column gets as many values as the object has", g_cnt[c] == n); }
static void written(Out& out) {
    bool m = g_metadata, v = m & g_versions;
    int d = g_kind == 0;
    done(d ? vfw::d_id : vfw::id, 1); done(d ? vfw::d_version : vfw::version, m); done(d ? vfw::d_timestamp : vfw::timestamp, m); done(d ? vfw::d_changeset : vfw::changeset, m); done(d ? vfw::d_uid : vfw::uid, m);
    done(d ? vfw::d_user_sid : vfw::user_sid, m); done(d ? vfw::d_visible : vfw::visible, v);
    done(vfw::lat, g_kind == 1); done(vfw::lon, g_kind == 1); done(vfw::d_lat, d); done(vfw::d_lon, d);
    if (d) done(vfw::d_kv, 2 * g_tags + 1); else { done(vfw::keys, g_tags); done(vfw::vals, g_tags); }
    done(vfw::refs, g_kind == 2 ? g_n : 0); done(vfw::roles, g_kind == 3 ? g_n : 0); done(vfw::memids, g_kind == 3 ? g_n : 0); done(vfw::types, g_kind == 3 ? g_n : 0);
    vf_ensure("an object goes into one group of the block", g_begun && g_alive[g_slot] && g_holds[g_slot] == g_kind);
    // the invariant again
    OSMPBF::PrimitiveGroup* g = g_kind <= 1 ? out.pbf_nodes : g_kind == 2 ? out.pbf_ways : out.pbf_relations;
    vf_ensure("the writer goes on with the group of the object", g == &out.pbf_primitive_block.groups[g_slot]);
    vf_ensure("the writer knows how many objects the block has, at most 8000", out.primitive_block_contents == (g_stored ? 1 : g_before + 1) && out.primitive_block_contents <= 8000);
    if (g_stored) vf_ensure("a new block starts without groups", (g_kind <= 1 || !out.pbf_nodes) && (g_kind == 2 || !out.pbf_ways) && (g_kind == 3 || !out.pbf_relations));
    if (d) { s_id = g_id; s_lat = g_lat; s_lon = g_lon; if (m) { s_timestamp = g_timestamp; s_changeset = g_changeset; s_uid = g_uid; } }
    vf_ensure("the writer remembers the sums of the delta columns", out.m_delta_id.m_value == s_id && out.m_delta_lat.m_value == s_lat && out.m_delta_lon.m_value == s_lon && out.m_delta_timestamp.m_value == s_timestamp && out.m_delta_changeset.m_value == s_changeset && out.m_delta_uid.m_value == s_uid);
    if (g_stored) vf_cover("new block"); else vf_cover("same block");
}
static void node(bool dense) {
    g_versions = vf_in_bool("history"); File f = a_file(g_versions); Out& out = a_writer(f);
    shared_ptr<Node> o = make_shared<Node>(); object(*o, out, dense ? 0 : 1, true);
    o->position(Position((i32)vf_in_i32("x"), (i32)vf_in_i32("y")));
    g_lat = out.lonlat2int(o->position().lat()); g_lon = out.lonlat2int(o->position().lon());
    g_n = 0; g_before = out.primitive_block_contents;
    out.node(o); written(out);
}
HARNESS(dense_node) { node(true); }
HARNESS(plain_node) { node(false); }
static void way(bool tags) {
    g_versions = vf_in_bool("history"); File f = a_file(g_versions); Out& out = a_writer(f);
    shared_ptr<Way> o = make_shared<Way>(); object(*o, out, 2, tags); g_before = out.primitive_block_contents;
    for (u64 i = 0; i < g_n; ++i) o->add_node(ref(i));
    auto last = [](u64 k) -> u64 { return vf_unless0(k, (u64)ref(k - 1)); }; vf_val(last);
    out.way(o); written(out);
}
HARNESS(way_tags) { way(true); }
HARNESS(way_refs) { way(false); }
static void relation(bool tags) {
    g_versions = vf_in_bool("history"); File f = a_file(g_versions); Out& out = a_writer(f);
    shared_ptr<Relation> o = make_shared<Relation>(); object(*o, out, 3, tags); g_before = out.primitive_block_contents;
    for (u64 i = 0; i < g_n; ++i) { vf_assume(role(i).size() <= 255 * 4); o->add_member(mtype(i), ref(i), role(i).c_str()); }
    auto last = [](u64 k) -> u64 { return vf_unless0(k, (u64)ref(k - 1)); }; vf_val(last);
    bool refused = false;
    try { out.relation(o); } catch (std::runtime_error&) { refused = true; }
    if (refused) { u64 j = g_cnt[vfw::types]; vf_ensure("only a member of no known type is refused", j < g_n && mtype(j) != 'n' && mtype(j) != 'w' && mtype(j) != 'r'); vf_cover("refused"); }
    else written(out);
}
HARNESS(relation_tags) { relation(true); }
HARNESS(relation_members) { relation(false); }
