// FLAGS: -I@V/specs/pbfw -I@V/stubs/geos
// NATIVE-FLAGS: -I@V/specs/pbfw -I@V/stubs/geos
#include <vf.hpp>
#include "pbfw_env.hpp"
// A message goes out as the length of the header, the header and the blob; write() takes any portions (after k calls the
// prefix sum S(k) is written) or fails.
static std::string g_msg, g_blob, g_head, g_type; static bool g_failed, g_zfailed, g_data, g_raw_size, g_has_type, g_datasize, g_blob_done, g_head_done, g_cleared[2], g_compress; static u64 g_k, g_pos, g_out_size; static int g_inits;
static u64 S(u64 k) { return vf_uf1("written", k); }
static u64 first() { return 4; } static u64 second() { return 4 + g_head.size(); } static u64 all() { return 4 + g_head.size() + g_blob.size(); }
static bool same(const char* p, const std::string& s, u64 from, u64 n) { return vf_engine() ? p == s.c_str() + from : std::string(p, n) == s.substr(from, n); }
static ssize_t vf_write(int fd, const void* b, size_t n) {
    const char* p = (const char*)b;
    vf_ensure("the file is written through its descriptor", fd == 5);
    vf_ensure("nothing is written after an error", !g_failed && !g_zfailed);
    vf_ensure("the blob and its header are complete before they are written", g_blob_done && g_head_done);
    vf_ensure("nothing but the frame is written", n > 0 && g_pos < all());
    if (g_pos < first()) {
        vf_ensure("a frame starts with the length of the header, most significant byte first", n <= first() - g_pos);
        const unsigned char* c = (const unsigned char*)p - g_pos; u64 h = g_head.size();
        if (vf_engine() || n == 4) vf_ensure("a frame starts with the length of the header, most significant byte first", c[0] == (unsigned char)(h >> 24) && c[1] == (unsigned char)(h >> 16) && c[2] == (unsigned char)(h >> 8) && c[3] == (unsigned char)h);
    } else if (g_pos < second()) vf_ensure("the header follows its length", n <= second() - g_pos && same(p, g_head, g_pos - first(), n));
    else vf_ensure("the blob follows the header", n <= all() - g_pos && same(p, g_blob, g_pos - second(), n));
    if (vf_uf1("fails", g_k) % 8 == 7) { g_failed = true; return -1; }
    u64 r;
    if (vf_engine()) { u64 s = S(g_k), e = S(g_k + 1); vf_assume(s == g_pos && e > s && e - s <= n); r = e - s; }
    else { r = 1 + S(g_k + 1) % n; if (vf_uf1("all", g_k) & 1) r = n; }
    g_pos += r; ++g_k;
    return (ssize_t)r;
}
int deflateInit(z_stream* z, int) { ++g_inits; if (vf_in_bool("init fails")) { g_zfailed = true; return -2; } z->total_out = 0; return Z_OK; }
int deflate(z_stream* z, int flush) {
    vf_ensure("the whole message is compressed at once", flush == Z_FINISH && z->avail_in == g_msg.size() && (vf_engine() ? (const char*)z->next_in == g_msg.c_str() : std::string((const char*)z->next_in, z->avail_in) == g_msg));
    vf_ensure("the compressed data has room in the buffer", (char*)z->next_out == g_out->m_compression_buffer && z->avail_out <= sizeof(g_out->m_compression_buffer));
    z->total_out = g_out_size = vf_in_u32("compressed") % 0x10000u; vf_assume(g_out_size <= z->avail_out);
    if (vf_in_bool("deflate fails")) { g_zfailed = true; return Z_OK; }
    return Z_STREAM_END;
}
int deflateEnd(z_stream*) { if (vf_in_bool("end fails")) { g_zfailed = true; return -2; } return Z_OK; }
namespace vfw {
void group(int, int) {} void begin(int, int) {} int new_group() { return 3; } int objects(int, int) { return 0; } bool has_info() { return false; } void info() {} int bytes() { return 0; } i64 get(int, int) { return 0; } int size(int) { return 0; }
void put(int, i64) {} void put_at(int, int, i64) {} void entry(const std::string&) {} void bbox() {}
bool serialized(int m, std::string* s) {
    if (m == m_block) *s = g_msg;
    else if (m == m_blob) { vf_ensure("the blob has its data and the size it has uncompressed", g_data && g_raw_size && !g_cleared[0]); g_blob_done = true; *s = g_blob; }
    else { vf_ensure("the header has the type and the size of the blob", m == m_blob_header && g_has_type && g_datasize && !g_cleared[1]); g_head_done = true; *s = g_head; }
    return true;
}
void cleared(int m) { if (m == m_blob) g_cleared[0] = g_blob_done; else if (m == m_blob_header) g_cleared[1] = g_head_done; }
void text(int w, const std::string& t) {
    if (w == t_raw) { vf_ensure("data that is not compressed goes out as it is", !g_compress && t == g_msg); g_data = true; }
    else { vf_ensure("the header has the type of the data", w == t_type && t == g_type); g_has_type = true; }
}
void zlib(const char* p, u64 n) { vf_ensure("what compression made of the data goes out", g_compress && g_inits == 1 && p == g_out->m_compression_buffer && n == g_out_size); g_data = true; }
void number(int w, i64 v) {
    if (w == n_raw_size) { vf_ensure("the blob says how large its data is", v == (i64)g_msg.size()); g_raw_size = true; }
    else { vf_ensure("the header says how large the blob is", w == n_datasize && g_blob_done && v == (i64)g_blob.size()); g_datasize = true; }
}
}
static void frame(bool compress) {
    File f = a_file(vf_in_bool("history")); Out& out = a_writer(f); g_out = &out;
    g_msg = vf_str("message"); g_blob = vf_str("blob"); g_head = vf_str("header"); g_type = vf_str("type");
    vf_assume(g_msg.size() < 0x7fffffff && g_blob.size() < 0x7fffffff && g_head.size() < 0x7fffffff);
    g_compress = compress; out.use_compression(compress);
    g_failed = g_zfailed = g_data = g_raw_size = g_has_type = g_datasize = g_blob_done = g_head_done = g_cleared[0] = g_cleared[1] = false; g_k = g_pos = 0; g_inits = 0;
    if (vf_engine()) vf_assume(S(0) == 0);
    u64 b = second(), c = all();
    VF_INV(g_pos <= 4); VF_INV(g_pos >= 4); VF_INV(g_pos <= b); VF_INV(g_pos >= b); VF_INV(g_pos <= c);
    auto pos = [](u64) -> u64 { return S(g_k); }; auto one = [](u64) -> u64 { return S(g_k) - 4; }; auto two = [b](u64) -> u64 { return S(g_k) - b; };
    vf_val(pos); vf_val(one); vf_val(two);
    bool refused = false;
    try { out.store_blob(g_type, out.pbf_primitive_block); } catch (std::runtime_error&) { refused = true; }
    vf_ensure("an error is reported, and nothing else is", refused == (g_failed || g_zfailed));
    if (!refused) { vf_ensure("the whole frame is written", g_pos == all()); vf_ensure("the blob and the header are cleared for the next one", g_cleared[0] && g_cleared[1]); vf_cover("written"); } else vf_cover("refused");
}
HARNESS(blob_raw) { frame(false); }
HARNESS(blob_compressed) { frame(true); }
