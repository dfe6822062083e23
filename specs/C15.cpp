// LIMIT: 400
// FLAGS: -I@V/specs/pbf
// NATIVE-FLAGS: -I@V/specs/pbf
// REPLACE: Osmium::Input::Base<Rec>::prepare_node WITH fresh_node
// REPLACE: Osmium::Input::Base<Rec>::prepare_way WITH fresh_way
// REPLACE: Osmium::Input::Base<Rec>::prepare_relation WITH fresh_relation
#include <vf.hpp>
#include "pbf_env.hpp"
using namespace Osmium::OSM;
struct Rec;
typedef Osmium::Input::PBF<Rec> In;
// one blob: four bytes of length, a header, the data
// (two blocks one after the other, the second with two groups: whatever the first left in the reader must not matter)
static int g_reads; static u64 g_block, g_groups, g_done, g_size;
static ssize_t vf_read(int, void* b, size_t n) { unsigned char* c = (unsigned char*)b; int r = g_reads++; if (r >= 6) return 0; if (r == 0 || r == 3) { c[0] = c[1] = c[2] = 0; c[3] = 1; return 4; } c[0] = 7; return 1; }
int uncompress(unsigned char*, unsigned long*, const unsigned char*, unsigned long) { return Z_OK; }
static i64 g_gran, g_date, g_lat, g_lon;
namespace OSMPBF { bool PrimitiveBlock::ParseFromArray(const void*, int) { b = table.b = vfp::current = g_block++; g_gran = granularity(); g_lat = lat_offset(); g_lon = lon_offset(); g_date = date_granularity(); return true; } bool HeaderBlock::ParseFromArray(const void*, int) { return true; } bool BlobHeader::ParseFromArray(const void*, int) { type_ = "OSMData"; size = 1; return true; } bool Blob::ParseFromArray(const void*, int) { data = "x"; return true; }
bool Blob::has_raw() const { return true; } bool Blob::has_zlib_data() const { return false; } bool Blob::has_lzma_data() const { return false; } i32 Blob::raw_size() const { return 0; }
int PrimitiveBlock::primitivegroup_size() const { return b == 1 ? (int)g_groups : 1; } static PrimitiveGroup g_group;
const PrimitiveGroup& PrimitiveBlock::primitivegroup(int) const { if (g_done++) vf_ensure("one object for each encoded entity", vfp::delivered == g_size); vfp::delivered = 0; return g_group; }
int HeaderBlock::required_features_size() const { return 0; } static std::string g_feature; const std::string& HeaderBlock::required_features(int) const { return g_feature; } std::string HeaderBlock::program; }
static std::string str(u64 i) { return vf_strs("string", i); }
static bool member_ok(const RelationMember& m, u64 i, u64 q);
struct Rec : public Osmium::Handler::Base {
    mutable u64 runs;
    Rec() : Osmium::Handler::Base(), runs(0) {}
    void before_nodes() const { ++runs; } void before_ways() const { ++runs; } void before_relations() const { ++runs; }
    void common(const Object& o) const {
        u64 i = vfp::delivered; bool dense = vfp::kind == 0; bool info = vfp::flag("has info", dense ? 0 : i);
        vf_ensure("the id is the encoded one", o.id() == vfp::value("id", i));
        if (info) {
            vf_ensure("version, changeset and user id are the encoded ones", o.version() == (u32)vf_i32s("version", i) && o.changeset() == (i32)vf_i64s("changeset", i) && o.uid() == (dense ? vfp::small("uid", i) : vf_i32s("uid", i)));
            vf_ensure("the timestamp is the encoded one in units of the date granularity", o.timestamp() == (i64)((u64)vf_i64s("timestamp", i) * g_date) / 1000);
            vf_ensure("the user is the encoded entry of the string table", std::string(o.user()) == str(vfp::user(i)));
        } else {
            vf_ensure("no metadata without metadata in the encoding", o.version() == 0 && o.changeset() == 0 && o.uid() == -1 && o.timestamp() == 0 && std::string(o.user()) == "");
        }
        vf_ensure("an object is visible unless encoded otherwise", o.visible() == (!info || !vfp::flag("has visible", dense ? 0 : i) || vfp::flag("visible", i)));
        u64 t = vfp::no_tags ? 0 : vfp::tags(i), j = vf_in_u64("j");
        vf_ensure("the tags are the encoded ones", (u64)o.tags().size() == t);
        if (j < t) vf_ensure("each tag has its entries of the string table", std::string(o.tags()[(int)j].key()) == str(vfp::key(i, j)) && std::string(o.tags()[(int)j].value()) == str(vfp::val(i, j)));
    }
    void node(const shared_ptr<Node const>& o) const {
        u64 i = vfp::delivered; common(*o);
        i64 x = (i64)((u64)vfp::value("lon", i) * g_gran + g_lon) / 100, y = (i64)((u64)vfp::value("lat", i) * g_gran + g_lat) / 100;
        vf_ensure("the location is offset plus granularity times value", (o->position().x() == (i32)x) & (o->position().y() == (i32)y));
        ++vfp::delivered;
    }
    void way(const shared_ptr<Way const>& o) const {
        u64 i = vfp::delivered, n = vfp::size("refs", i), q = vf_in_u64("q"); common(*o);
        vf_ensure("the way nodes are the encoded ones", o->nodes().size() == n);
        if (q < n) vf_ensure("each way node has its reference", o->nodes()[(int)q].ref() == vfp::value2("ref", i, q));
        ++vfp::delivered;
    }
    void relation(const shared_ptr<Relation const>& o) const {
        u64 i = vfp::delivered, n = vfp::size("refs", i), q = vf_in_u64("q"); common(*o);
        vf_ensure("the members are the encoded ones", o->members().size() == n);
        if (q < n) vf_ensure("each member has its type, reference and role", member_ok(*o->get_member(q), i, q));
        ++vfp::delivered;
    }
};
// every object is delivered in a fresh one (C27)
extern "C" Node& fresh_node(In* in) { Node* n = new Node(); new (&in->m_node) shared_ptr<Node>(n); return *n; }
extern "C" Way& fresh_way(In* in) { Way* n = new Way(); new (&in->m_way) shared_ptr<Way>(n); return *n; }
extern "C" Relation& fresh_relation(In* in) { Relation* n = new Relation(); new (&in->m_relation) shared_ptr<Relation>(n); return *n; }

static bool member_ok(const RelationMember& m, u64 i, u64 q) { u64 t = vfp::mtype(i, q); return m.ref() == vfp::value2("ref", i, q) && m.type() == (t == 0 ? 'n' : t == 1 ? 'w' : 'r') && std::string(m.role()) == str(vfp::role(i, q)); }
static void group(int kind, int info = 0, int tags = 0) {
    u64 n = vf_size("n", 4); vf_assume(n < (1u << 28));
    if (kind) vf_assume(n > 0);
    vfp::any_strings(); vfp::kind = kind; vfp::ngroup = n; vfp::delivered = 0; vfp::no_tags = false; vfp::nkv = 0;
    if (kind == 1) vfp::nodes.fill(n, "nodes"); if (kind == 2) vfp::ways.fill(n, "ways"); if (kind == 3) vfp::relations.fill(n, "relations");
    if (kind == 0) { vf_assume(vfp::flag("has info", 0) == (info != 0)); vfp::no_tags = !tags; if (!vfp::no_tags) { if (vf_engine()) { vfp::nkv = vf_in_u32("nkv"); vf_assume(vfp::start(0) == 0); vf_assume(vfp::nkv >= n && vfp::nkv < (1u << 30) && vfp::nkv > 0); } else vfp::nkv = vfp::start(n); } }
    Rec rec; In& in = *a_reader<In>(Osmium::OSMFile("x.pbf"), rec);
    g_block = g_done = 0; g_size = n; g_groups = kind == 3 ? 1 : 2;
    OSMPBF::g_group.dense_.n = n; OSMPBF::g_group.dense_.info.n = n; g_reads = 0;
    VF_INV(K < (1u << 30));
    if (kind == 0 && tags) { VF_INV(K <= (u64)vfp::tags(vfp::delivered)); }
    // what running sums stand for
    auto ref = [](u64 k) -> u64 { return vfp::before2("ref", vfp::delivered, k); };
    auto c0 = [](u64 k) -> u64 { return vfp::before("id", k); };
    auto c1 = [](u64 k) -> u64 { return vfp::before("lat", k); };
    auto c2 = [](u64 k) -> u64 { return vfp::before("lon", k); };
    auto c3 = [](u64 k) -> u64 { return vfp::sbefore("uid", k); };
    auto c4 = [](u64 k) -> u64 { return vfp::ubefore(k); };
    auto c5 = [](u64 k) -> u64 { return vfp::before("changeset", k); };
    auto c6 = [](u64 k) -> u64 { return vfp::before("timestamp", k); };
    auto c7 = [](u64 k) -> u64 { return vfp::start(k); };
    auto mt = [](u64 k) -> u64 { u64 t = vfp::mtype(vfp::delivered, k); u64 c = 'r'; if (t == 0) c = 'n'; if (t == 1) c = 'w'; return c; };
    if (kind == 2 || kind == 3) { vf_val(ref); } if (kind == 3) { vf_val(mt); }
    if (kind == 0) { vf_val(c0); vf_val(c1); vf_val(c2); if (vfp::flag("has info", 0)) { vf_val(c3); vf_val(c4); vf_val(c5); vf_val(c6); } if (!vfp::no_tags) { vf_val(c7); } }
    in.parse();
    vf_clear_inv();
    vf_ensure("one object for each encoded entity", vfp::delivered == n && g_done == g_groups + 1);
    vf_ensure("groups of a kind are in one run of its type", rec.runs == 1);
}
HARNESS(nodes) { group(1); }
HARNESS(ways) { group(2); }
HARNESS(relations) { group(3); }
HARNESS(dense_bare) { group(0, 0, 0); }
HARNESS(dense_tags) { group(0, 0, 1); }
HARNESS(dense_info) { group(0, 1, 0); }
HARNESS(dense_full) { group(0, 1, 1); }
