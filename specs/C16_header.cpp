// FLAGS: -I@V/specs/pbfw -I@V/stubs/geos
// NATIVE-FLAGS: -I@V/specs/pbfw -I@V/stubs/geos
// FP: real
// REPLACE: Osmium::Output::PBF::store_blob WITH blob
// REPLACE: Osmium::Output::PBF::store_primitive_block WITH stored
#include <vf.hpp>
#include "pbfw_env.hpp"
// numbers are scaled without loss, and the header says what the reader needs to know
static int g_blobs, g_blocks; static bool g_cleared, g_schema, g_dense, g_history, g_program, g_box, g_other; static std::string g_generator; static i64 g_side[4];
static void header_out() { ++g_blobs; }
#ifdef VF_ENGINE
extern "C" void blob(Out* o, const std::string& type, const google::protobuf::MessageLite& m) { vf_ensure("the header goes out as a header", type == "OSMHeader" && &m == &o->pbf_header_block); header_out(); }
extern "C" void stored(Out* o) { ++g_blocks; o->primitive_block_contents = 0; }
#endif
static ssize_t vf_write(int, const void*, size_t n) { return (ssize_t)n; }
int deflateInit(z_stream*, int) { return Z_OK; } int deflate(z_stream* z, int) { z->total_out = 0; return Z_STREAM_END; } int deflateEnd(z_stream*) { return Z_OK; }
namespace vfw {
void group(int, int) {} void begin(int, int) {} int new_group() { return 3; } int objects(int, int) { return 0; } bool has_info() { return false; } void info() {} int bytes() { return 0; } i64 get(int, int) { return 0; } int size(int) { return 0; }
void put(int, i64) {} void put_at(int, int, i64) {} void entry(const std::string&) {} void zlib(const char*, u64) {}
bool serialized(int m, std::string* s) { if (!vf_engine()) { if (m == m_header) header_out(); if (m == m_block) ++g_blocks; } *s = ""; return true; }
void cleared(int m) { if (m == m_header) g_cleared = g_blobs == 1; }
void text(int w, const std::string& t) {
    if (w == t_feature) { if (t == "OsmSchema-V0.6") g_schema = true; else if (t == "DenseNodes") g_dense = true; else if (t == "HistoricalInformation") g_history = true; else g_other = true; }
    else if (w == t_program) { vf_ensure("the header names the program", t == g_generator); g_program = true; }
    else if (!vf_engine() && w == t_type) vf_ensure("the header goes out as a header", t == (g_blocks ? "OSMData" : "OSMHeader"));
}
void number(int w, i64 v) { if (w >= n_left && w <= n_bottom) g_side[w - n_left] = v; }
void bbox() { g_box = true; }
}
HARNESS(scaled_positions) {
    File f = a_file(false); Out& out = a_writer(f);
    i32 x = vf_in_i32("x"), y = vf_in_i32("y"); Position p(x, y);
    vf_ensure("positions are scaled without loss", out.lonlat2int(p.lon()) == x && out.lonlat2int(p.lat()) == y);
    vf_cover("scaled");
}
HARNESS(scaled_times) {
    File f = a_file(false); Out& out = a_writer(f);
    u64 t = vf_in_u64("t"); if (!vf_engine()) t >>= 16; vf_assume(t < (1ULL << 48));
    vf_ensure("times are scaled without loss", out.timestamp2int((time_t)t) == (i64)t);
    vf_cover("scaled");
}
static bool near(i64 v, i32 x) { double d = (double)v - (double)x * 100.0; return (d < 1.001) & (d > -1.001); }     // nanodegrees
static void header(bool bounds) {
    bool history = !bounds && vf_in_bool("history"), dense = bounds || vf_in_bool("dense");
    File f = a_file(history); Out& out = a_writer(f); g_out = &out;
    g_blobs = g_blocks = 0; g_cleared = g_schema = g_dense = g_history = g_program = g_box = g_other = false; g_side[0] = g_side[1] = g_side[2] = g_side[3] = 0;
    g_generator = vf_str("generator"); out.set_generator(g_generator); out.use_dense_format(dense);
    Meta meta; i32 x = vf_in_i32("x"), y = vf_in_i32("y"), u = vf_in_i32("u"), v = vf_in_i32("v");
    if (bounds) { Position a(x, y), b(u, v); vf_assume(a.defined() && b.defined()); meta.bounds().m_bottom_left = a; meta.bounds().m_top_right = b; }
    out.init(meta);
    vf_ensure("one header is written before everything else", g_blobs == 1 && g_cleared && g_blocks == 0);
    vf_ensure("the header requires what the reader must know", g_schema && g_dense == dense && g_history == history && !g_other && g_program);
    vf_ensure("the bounds are in the header if there are any", g_box == bounds);
    if (bounds) { vf_ensure("the bounds are in the header to the nanodegree", near(g_side[0], x)); vf_ensure("the bounds are in the header to the nanodegree", near(g_side[1], u)); vf_ensure("the bounds are in the header to the nanodegree", near(g_side[2], v)); vf_ensure("the bounds are in the header to the nanodegree", near(g_side[3], y)); }
    vf_cover("header");
}
HARNESS(header_without_bounds) { header(false); }
HARNESS(header_with_bounds) { header(true); }
HARNESS(end) {
    File f = a_file(vf_in_bool("history")); Out& out = a_writer(f); g_out = &out; g_blobs = g_blocks = 0;
    u16 n = vf_in_u16("contents"); if (!vf_engine() && vf_in_bool("none")) n = 0; vf_assume(n <= 8000); out.primitive_block_contents = n;
    out.final();
    vf_ensure("what is left is written at the end", g_blocks == (n != 0) && g_blobs == 0);
    vf_ensure("no object is left in the writer", out.primitive_block_contents == 0);
    vf_cover("end");
}
