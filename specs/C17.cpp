// FLAGS: -I@V/specs/pbf
// NATIVE-FLAGS: -I@V/specs/pbf
// LIMIT: 400
#include <vf.hpp>
#include "pbf_env.hpp"
using namespace Osmium::OSM;
#ifdef VF_NATIVE
const char* pool[] = {"OSMData", "OSMHeader", "x", "OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort", 0};
const char** vf_pool_user = pool;
#endif
struct Rec : public Osmium::Handler::Base { Rec() : Osmium::Handler::Base() {} void node(const shared_ptr<Node const>&) const {} };
typedef Osmium::Input::PBF<Rec> In;
static In* g_in;
// ---- the file: one frame, of which read() gives any portions (portion k of a part ends at the prefix sum S(k)), then the end
enum { length, header, blob, next_frame };
static int g_part; static u64 g_len, g_got, g_k, g_calls; static unsigned char* g_base; static i32 g_size, g_datasize, g_raw_size;
static bool g_refuse;                  // the file must be refused
static bool g_whole;                   // the length comes in one read
static bool g_end;                     // the file ended at a frame boundary
static u64 g_handed; static std::string g_type; static bool g_parses[3], g_zerror; static u8 g_kind; static u64 g_unpacked;
static u64 sum(u64 k) { return g_part == header ? vf_uf1("header got", k) : vf_uf1("blob got", k); }
static u64 header_got(u64 k) { return vf_uf1("header got", k); }
static u64 blob_got(u64 k) { return vf_uf1("blob got", k); }
static void part(int p, u64 len) { g_part = p; g_len = len; g_got = 0; g_k = 0; g_base = g_in->m_input_buffer; }
static bool inside(const void* p, u64 n, const unsigned char* buf, u64 size) { return (const unsigned char*)p >= buf && (u64)((const unsigned char*)p - buf) <= size && n <= size - (u64)((const unsigned char*)p - buf); }
static ssize_t vf_read(int fd, void* b, size_t n) {
    unsigned char* c = (unsigned char*)b;
    vf_ensure("the file is read through its descriptor", fd == 5);
    if (g_part == next_frame) { g_end = true; return 0; }
    vf_ensure("no more is asked for than the rest of the announced bytes", n <= g_len - g_got);
    if (g_part != length) vf_ensure("what is read goes into the buffer", inside(c, n, g_in->m_input_buffer, sizeof(g_in->m_input_buffer)));
    if (g_k == 0 && g_base != c) g_base = c;
    vf_ensure("each portion follows the one before", c == g_base + g_got);
    u64 what = g_part == length ? vf_pick("length", g_k, 6) : g_part == header ? vf_pick("header", g_k, 6) : vf_pick("blob", g_k, 6);
    if (what == 4 || (!g_whole && g_part != length)) { g_refuse = true; return -1; }
    if (what == 5) { if (g_part == length && g_got == 0) g_end = true; else g_refuse = true; return 0; }
    u64 r;
    if (g_part == length) {
        r = g_whole ? 4 : what == 0 ? 1 : what == 1 ? 2 : what == 2 ? 3 : 4; if (r > n) r = n;
        for (u64 i = 0; i < r; ++i) c[i] = (unsigned char)((u32)g_size >> 8 * (3 - (g_got + i)));
    } else if (vf_engine()) {
        u64 s = sum(g_k), e = sum(g_k + 1); vf_assume(s == g_got && e > s && e - s <= n); r = e - s;
    } else { r = 1 + sum(g_k + 1) % n; if (vf_uf1("all", g_k) & 1) r = n; }
    g_got += r; ++g_k;
    if (g_part == length && g_got == 4) part(header, (u64)(i64)g_size);
    return (ssize_t)r;
}
int uncompress(unsigned char* dest, unsigned long* len, const unsigned char* source, unsigned long n) {
    vf_ensure("the compressed data of the blob is uncompressed", source == (const unsigned char*)g_in->m_pbf_blob.data.data() && n == g_in->m_pbf_blob.data.size());
    vf_ensure("uncompressed data has room in its buffer", inside(dest, *len, g_in->m_unpack_buffer, sizeof(g_in->m_unpack_buffer)));
    vf_ensure("the announced size is the room given", *len == (unsigned long)(long)g_raw_size);
    g_base = dest;
    u64 l = g_unpacked; if (!vf_engine() && (l & 1)) l = *len; vf_assume(l <= *len);
    *len = l;
    if (l != (u64)(i64)g_raw_size) g_refuse = true;
    if (g_zerror) { g_refuse = true; return -3; }
    return Z_OK;
}
// is one of the first k required features the history?
static bool is_historical(u64 k) { return vf_strs("feature", k) == "HistoricalInformation"; }
#ifdef VF_ENGINE
static bool historical(u64 k) { return vf_uf1("historical", k) & 1; }
#else
static bool historical(u64 k) { for (u64 i = 0; i < k; ++i) if (is_historical(i)) return true; return false; }
#endif
namespace OSMPBF {
static bool says(int n) { if (g_parses[n]) return true; g_refuse = true; return false; }
bool BlobHeader::ParseFromArray(const void* p, int n) {
    vf_ensure("the header is parsed from exactly the announced bytes", n == g_size && (n == 0 || (g_part == header && g_got == g_len && p == g_base)));
    size = g_datasize; type_ = g_type; part(blob, (u64)(i64)size);
    if (size < 0 || size > max_uncompressed_blob_size) g_refuse = true;
    return says(0);
}
bool Blob::ParseFromArray(const void* p, int n) {
    vf_ensure("the blob is parsed from exactly the announced bytes", n == g_datasize && n >= 0 && (n == 0 || (g_part == blob && g_got == g_len && p == g_base)));
    part(next_frame, 0); g_base = 0; data = vf_str("data"); vf_assume(data.size() <= (u64)(i64)n);
    if (g_kind > 1 || (g_kind == 1 && (g_raw_size < 0 || g_raw_size > max_uncompressed_blob_size))) g_refuse = true;      // no data in a known form, or an impossible size
    return says(1);
}
bool Blob::has_raw() const { return g_kind == 0; }
bool Blob::has_zlib_data() const { return g_kind == 1; }
bool Blob::has_lzma_data() const { return g_kind == 2; }
i32 Blob::raw_size() const { return g_raw_size; }
static bool handed_on(const void* p, int n) {
    const Blob& b = g_in->m_pbf_blob; ++g_handed;
    if (b.has_raw()) vf_ensure("raw data is handed on as it is", p == b.data.data() && (u64)(i64)n == b.data.size());
    else vf_ensure("uncompressed data of the announced size is handed on", b.has_zlib_data() && !g_refuse && g_base && p == g_base && n == g_raw_size);
    return says(2);
}
bool PrimitiveBlock::ParseFromArray(const void* p, int n) { vf_ensure("data goes to the data block", g_type == "OSMData"); b = 0; return handed_on(p, n); }
bool HeaderBlock::ParseFromArray(const void* p, int n) { vf_ensure("a header goes to the header block", g_type == "OSMHeader"); return handed_on(p, n); }
int PrimitiveBlock::primitivegroup_size() const { return 0; } static PrimitiveGroup g_group; const PrimitiveGroup& PrimitiveBlock::primitivegroup(int) const { return g_group; }
std::string HeaderBlock::program; static std::string g_feature; static u64 g_nfeatures;
int HeaderBlock::required_features_size() const { return (int)g_nfeatures; }
const std::string& HeaderBlock::required_features(int i) const {
    g_feature = vf_strs("feature", (u64)(i64)i);
    if (!(g_feature == "OsmSchema-V0.6" || g_feature == "DenseNodes" || g_feature == "HistoricalInformation")) g_refuse = true;
    if (vf_engine()) vf_assume(historical((u64)(i64)i + 1) == (historical((u64)(i64)i) | (g_feature == "HistoricalInformation")));
    return g_feature;
}
}
static void frame(bool whole) {
    g_whole = whole;
    Rec rec; g_in = a_reader<In>(Osmium::OSMFile("x.pbf"), rec);
    g_size = vf_in_i32("header size"); g_datasize = vf_in_i32("data size"); g_raw_size = vf_in_i32("raw size");
    if (!vf_engine()) { if (vf_in_bool("small header")) g_size &= 0xff; if (vf_in_bool("small data")) g_datasize &= 0xfff; if (vf_in_bool("small raw")) g_raw_size &= 0xffff; }
    g_type = vf_str("type"); g_parses[0] = vf_in_bool("header parses"); g_parses[1] = vf_in_bool("blob parses"); g_parses[2] = vf_in_bool("block parses"); g_zerror = vf_in_bool("zlib error"); g_kind = vf_in_u8("kind of data") & 3; g_unpacked = vf_in_u64("uncompressed size");
    if (vf_engine()) vf_assume(header_got(0) == 0 && blob_got(0) == 0);
    OSMPBF::g_nfeatures = 0; vf_assume(!vfp::flag("has bbox", 0) && !vfp::flag("has program", 0));
    if (!whole) vf_assume(g_size > 0);
    g_refuse = g_end = false; g_handed = 0; part(length, 4);
    bool sized = g_size >= 0 && g_size <= 64 * 1024;
    VF_INV(K <= g_len); VF_INV(g_got <= g_len); VF_INV(g_k == K);
    auto hg = [](u64 k) -> u64 { return header_got(k); }; auto bg = [](u64 k) -> u64 { return blob_got(k); }; vf_val(hg); vf_val(bg);
    bool refused = false;
    try { g_in->parse(); } catch (std::exception&) { refused = true; }
    vf_clear_inv();
    if (g_part == header && !sized) vf_ensure("a header size outside the limits is an error", refused && g_got == 0);
    else vf_ensure("a frame is refused exactly if it is not complete and valid", refused == g_refuse);
    if (!refused) vf_ensure("the end is reported at a frame boundary only", g_end);
}
HARNESS(lengths) { frame(false); }
HARNESS(frames) { frame(true); }
// a file that needs what the reader does not know is refused, one of the other type too
HARNESS(features) {
    g_whole = true; int t = (int)vf_pick("file type", 0, 2);
    Osmium::OSMFile file("x.pbf"); file.type(t ? Osmium::OSMFile::FileType::History() : Osmium::OSMFile::FileType::OSM());
    Rec rec; g_in = a_reader<In>(file, rec);
    g_size = 0; g_datasize = 0; g_raw_size = 0; g_kind = 0; g_type = "OSMHeader"; g_parses[0] = g_parses[1] = g_parses[2] = true; g_zerror = false;
    u64 n = OSMPBF::g_nfeatures = vf_size("features", 3); vf_assume(n < (1u << 30));
    vf_assume(!vfp::flag("has bbox", 0) && !vfp::flag("has program", 0) && vf_pick("length", 0, 6) == 0);
    if (vf_engine()) vf_assume(!historical(0));
    g_refuse = g_end = false; g_handed = 0; part(length, 4);
    bool refused = false;
    VF_INV(K < (1u << 30)); VF_INV(K <= OSMPBF::g_nfeatures);
    auto h = [](u64 k) -> u64 { return historical(k); }; vf_val(h);
    try { g_in->parse(); } catch (std::exception&) { refused = true; } catch (Osmium::OSMFile::FileTypeError&) { refused = true; }
    vf_clear_inv();
    vf_ensure("the header is looked at", g_handed == 1);
    vf_ensure("a file with an unknown required feature is refused", refused || !g_refuse);
    if (!g_refuse) vf_ensure("a file of the expected type is accepted, one of the other is refused", refused == (historical(n) != (t == 1)));
}
