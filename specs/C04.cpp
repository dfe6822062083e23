// LIMIT: 200
// NATIVE-TIME: 20
#include <vf.hpp>
#include <cstdlib>
#include <cstdio>
#include <new>
#include <cassert>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <osmium/osm/position.hpp>

// ---------------------------------------------------------------- contract of the mapping calls
static u64 g_len;          // bytes mapped
static u64 g_flen;         // bytes in the file
static bool g_fail;        // a call may fail
static bool g_move;        // growing gives a new address
static bool g_failed;      // some call failed
static bool g_args = true; // the calls were made with the right arguments
static void* g_map;        // the live mapping
static const int FD = 77;
#ifdef VF_ENGINE
static void* new_map(u64 len) { void* p = vf_new_region(8, "map"); vf_zero_region(p); return p; }
static void free_map(void* p) { vf_free_region(p); }
static void* moved(void* p, u64 len) { void* q = vf_new_region(8, "map"); vf_copy_region(q, p); return q; }
static void bound(void* p, u64 bytes) { vf_set_count(p, bytes / 8); }
#else
#include <sys/syscall.h>
static const u64 RESERVE = 1ULL << 28;
// not mmap() itself: the sanitizer would clear its shadow of the whole reserve
static void* sys_map(void* a, u64 len, int prot, int flags, int fd, long off) { return (void*)syscall(SYS_mmap, a, len, prot, flags, fd, off); }
static void* sys_remap(void* o, u64 ol, u64 nl, int flags, void* n) { return (void*)syscall(SYS_mremap, o, ol, nl, flags, n); }
static int g_mem = -1; static void* g_maps[16]; static int g_nmaps;
static void* new_map(u64 len) {
    void* p = g_mem >= 0 ? sys_map(0, len, PROT_READ | PROT_WRITE, MAP_SHARED, g_mem, 0) : sys_map(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || g_nmaps == 16) vf_stop();
    return g_maps[g_nmaps++] = p;
}
static void bound(void*, u64) {}
#endif
static void* vf_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (addr || off || prot != (PROT_READ | PROT_WRITE) || len == 0) g_args = false;
    if (fd == FD) { if (!(flags & MAP_SHARED) || len > g_flen) g_args = false; }
    else if (!(flags & MAP_ANONYMOUS) || !(flags & MAP_PRIVATE)) g_args = false;
    if (g_fail && vf_in_bool("mmap fails")) { g_failed = true; return MAP_FAILED; }
    g_len = len;
#ifdef VF_ENGINE
    void* p = !g_map ? new_map(len) : (g_move ? moved(g_map, len) : g_map);
#else
    void* p = new_map(RESERVE);
    if (len > (RESERVE)) vf_stop();
#endif
    g_map = p;
    if (g_move) bound(p, len);
    return p;
}
static void* vf_mremap(void* old, size_t olen, size_t len, int flags) {
    if (!vf_same_obj(old, g_map) || olen != g_len || !(flags & MREMAP_MAYMOVE)) g_args = false;
    if (g_fail && vf_in_bool("mremap fails")) { g_failed = true; return MAP_FAILED; }
    g_len = len;
#ifdef VF_ENGINE
    if (g_move) { g_map = moved(old, len); free_map(old); bound(g_map, len); }
#else
    if (len > (RESERVE)) vf_stop();
    if (g_move) g_map = sys_remap(old, RESERVE, RESERVE, MREMAP_MAYMOVE | MREMAP_FIXED, new_map(RESERVE));
#endif
    return g_map;
}
static u64 g_unmaps;
static int vf_munmap(void* p, size_t len) {
    ++g_unmaps;
    if (g_fail && vf_in_bool("munmap fails")) { g_failed = true; return -1; }
    return 0;
}
static int vf_open(const char*, int flags, int) { if ((flags & O_ACCMODE) != O_RDWR || !(flags & O_CREAT) || (flags & O_TRUNC)) g_args = false; if (g_fail && vf_in_bool("open fails")) { g_failed = true; return -1; } return FD; }
static FILE* vf_tmpfile() { if (g_fail && vf_in_bool("tmpfile fails")) { g_failed = true; return 0; } return (FILE*)&g_fail; }
static int vf_fileno(FILE*) { return FD; }
static int vf_unlink(const char*) { return 0; }
static int vf_ftruncate(int fd, off_t len) { if (fd != FD || (u64)len < g_flen) g_args = false; if (g_fail && vf_in_bool("ftruncate fails")) { g_failed = true; return -1; } g_flen = len; return 0; }
static int vf_fstat(int fd, struct stat* s) { if (fd != FD) g_args = false; if (g_fail && vf_in_bool("fstat fails")) { g_failed = true; return -1; } s->st_size = g_flen; return 0; }
static void start(bool file) {
    g_map = 0; g_len = 0; g_fail = false; g_move = false; g_failed = false; g_args = true; g_unmaps = 0; g_flen = 0;
#ifndef VF_ENGINE
    for (int i = 0; i < g_nmaps; ++i) syscall(SYS_munmap, g_maps[i], RESERVE);
    g_nmaps = 0;
    if (g_mem >= 0) close(g_mem);
    g_mem = -1;
    if (file) { g_mem = syscall(SYS_memfd_create, "c04", 0); if (g_mem < 0 || (ftruncate)(g_mem, RESERVE)) vf_stop(); }
#endif
}
#define mmap vf_mmap
#define mremap vf_mremap
#define munmap vf_munmap
#define open vf_open
#define tmpfile vf_tmpfile
#undef fileno
#define fileno vf_fileno
#define unlink vf_unlink
#define ftruncate vf_ftruncate
#define fstat vf_fstat
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
#undef mmap
#undef mremap
#undef munmap
#undef open
#undef tmpfile
#undef fileno
#undef unlink
#undef ftruncate
#undef fstat
using namespace Osmium::Storage::ById;
using Osmium::OSM::Position;

// the history: set(id(i), value(i)) for i < n, any n
static u64 limit = 1ULL << 60;       // ids below this, so that sizes in bytes do not overflow
static u64 id(u64 i) { return vf_engine() ? vf_uf1("id", i) : vf_uf1("id", i) % (vf_uf1("big", i) % 4 ? 12 : 12000000); }
static Position value(u64 i) { return Position((int32_t)vf_i32s("x", i), (int32_t)vf_i32s("y", i)); }
// one more than the position in the history of the last store under q (0: none)
struct Hist {
    u64 q;
    u64 last(u64 K) { u64 p = q; auto f = [p](u64 acc, u64 i) -> u64 { return id(i) == p ? i + 1 : acc; }; return vf_fold(K, 0, f); }
    u64 maxid(u64 K) { auto f = [](u64 acc, u64 i) -> u64 { return id(i) >= acc ? id(i) + 1 : acc; }; return vf_fold(K, 0, f); }
};
template <class S> static bool reads(const S& s, u64 q, u64 last) { const Position p = s[q]; return p == value(last - 1); }
static bool isdefault(const Position& p, bool zero) { return zero ? p.x() == 0 && p.y() == 0 : !p.defined() && p.x() == Position::invalid && p.y() == Position::invalid; }

HARNESS(mmap_anon) {
    start(false);
    u64 n = vf_count("n", 6); Hist h; h.q = vf_engine() ? vf_in_u64("q") : id(vf_in_u64("q") % 8); vf_assume(h.q < limit);
    {
    MmapAnon<Position> s;
    VF_INV(s.size() * 8 == g_len && s.used_memory() == g_len && s.size() < 2 * limit && s.size() >= 1);
    VF_INV(h.maxid(K) <= s.size() && h.maxid(K) <= limit);
    VF_INV(g_args);
    VF_INV(h.last(K) == 0 ? isdefault(((Position*)g_map)[h.q], true) : (h.q < h.maxid(K) && reads(s, h.q, h.last(K))));
    for (u64 i = 0; i < n; ++i) { vf_assume(id(i) < limit); s.set(id(i), value(i)); }
    u64 l = h.last(n), size = s.size();
    // one more, with a mapping that may move and calls that may fail
    bound(g_map, g_len); g_move = true; g_fail = true;
    vf_assume(id(n) < limit);
    bool threw = false; void* before = g_map;
    try { s.set(id(n), value(n)); } catch (std::bad_alloc&) { threw = true; }
    vf_ensure("the mapping calls get the right arguments", g_args);
    vf_ensure("a failed growth is reported by an exception", threw == g_failed);
    vf_ensure("the size covers the whole mapping and every stored id", s.size() * 8 == g_len && s.size() >= h.maxid(n) && (threw || s.size() > id(n)));
    vf_ensure("a store is never made smaller", s.size() >= size);
    if (!threw && h.q == id(n)) { vf_ensure("the value stored last is returned", s[h.q] == value(n)); vf_cover("overwritten"); }
    else if (l != 0) { vf_ensure("growing and failing to grow keep every stored value", reads(s, h.q, l)); vf_cover("kept"); }
    else if (h.q < s.size()) { vf_ensure("ids never stored read as zero", isdefault(s[h.q], true)); vf_cover("default"); }
    g_fail = false;
    }
    vf_ensure("the mapping is released", g_unmaps >= 1);
}
HARNESS(mmap_anon_create) {
    start(false); g_fail = true; g_move = true;
    bool threw = false; u64 q = vf_in_u64("q");
    try { MmapAnon<Position> s; if (q < s.size()) vf_ensure("a new store reads as zero", isdefault(s[q], true)); vf_ensure("the size of a new store is that of its mapping", s.size() * 8 == g_len && g_len > 0); g_fail = false; } catch (std::bad_alloc&) { threw = true; }
    vf_ensure("failure to create the mapping is reported", threw == g_failed && g_args);
    vf_cover("create");
}
HARNESS(mmap_file) {
    start(true);
    g_flen = vf_count("file length", 3) * 8;
    u64 n = vf_count("n", 6); Hist h; h.q = vf_engine() ? vf_in_u64("q") : id(vf_in_u64("q") % 8); vf_assume(h.q < limit);
    vf_assume(g_flen < limit * 8);
    {
    MmapFile<Position> s("file", false);
    VF_INV(s.size() * 8 == g_len && s.used_memory() == g_len && s.size() < 2 * limit && s.size() >= 1);
    VF_INV(g_flen >= g_len && g_flen / 16 < limit);
    VF_INV(h.maxid(K) <= s.size() && h.maxid(K) <= limit);
    VF_INV(g_args && g_unmaps <= K);
    VF_INV(h.last(K) == 0 || (h.q < h.maxid(K) && reads(s, h.q, h.last(K))));
    for (u64 i = 0; i < n; ++i) { vf_assume(id(i) < limit); s.set(id(i), value(i)); }
    u64 l = h.last(n), size = s.size();
    bound(g_map, g_len); g_move = true; g_fail = true;
    vf_assume(id(n) < limit);
    bool threw = false;
    try { s.set(id(n), value(n)); } catch (std::bad_alloc&) { threw = true; }
    vf_ensure("the mapping calls get the right arguments", g_args);
    vf_ensure("a failed growth is reported by an exception", threw == g_failed);
    vf_ensure("the file is at least as large as the mapping", g_flen >= g_len);
    vf_ensure("the size covers the whole mapping and every stored id", s.size() * 8 <= g_len && s.size() >= h.maxid(n) && (threw || s.size() > id(n)));
    if (!threw && h.q == id(n)) { vf_ensure("the value stored last is returned", s[h.q] == value(n)); vf_cover("overwritten"); }
    else if (l != 0) { vf_ensure("growing and failing to grow keep every stored value", reads(s, h.q, l)); vf_cover("kept"); }
    g_fail = false;
    }
    vf_ensure("the mapping is released", g_unmaps >= 1);
}
HARNESS(mmap_file_create) {
    start(true); g_fail = true; g_move = true; g_flen = vf_count("file length", 3);
    bool threw = false;
    std::string name = vf_in_bool("named") ? "file" : "";
    try { MmapFile<Position> s(name, vf_in_bool("remove")); vf_ensure("the size of a new store is that of its mapping", s.size() * 8 == g_len && g_len > 0 && g_flen >= g_len); g_fail = false; } catch (std::bad_alloc&) { threw = true; }
    vf_ensure("failure to create the mapping is reported", threw == g_failed && g_args);
    vf_cover("create");
}
HARNESS(fixed_array) {
    u64 n = vf_count("n", 6); Hist h; h.q = vf_engine() ? vf_in_u64("q") : id(vf_in_u64("q") % 8);
    u64 max = vf_engine() ? vf_in_u64("max") : 12000000; vf_assume(max > 0 && max < limit);
    FixedArray<Position> s(max);
    auto inv = [&](u64 K) -> bool { u64 l = h.last(K); return h.maxid(K) <= max && s.size() == max && (l == 0 || (h.q < h.maxid(K) && reads(s, h.q, l))); };
    vf_inv(inv);
    for (u64 i = 0; i < n; ++i) { vf_assume(id(i) < max); s.set(id(i), value(i)); }
    u64 l = h.last(n);
    vf_ensure("the size of the array is the one it was made with", s.size() == max && s.used_memory() == max * 8);
    if (l) { vf_ensure("the value stored last is returned", reads(s, h.q, l)); vf_cover("stored"); }
}
HARNESS(sparse_table) {
    u64 n = vf_count("n", 6); Hist h; h.q = vf_engine() ? vf_in_u64("q") : id(vf_in_u64("q") % 8); vf_assume(h.q < limit);
    u64 grow = vf_engine() ? vf_in_u64("grow") : 1 + vf_in_u64("grow") % 100; vf_assume(grow > 0 && grow < limit);
    SparseTable<Position> s(grow);
    auto inv = [&](u64 K) -> bool { u64 l = h.last(K); return h.maxid(K) <= s.size() && h.maxid(K) <= limit && s.size() <= 2 * limit && (l == 0 ? isdefault(s[h.q], false) : (h.q < h.maxid(K) && reads(s, h.q, l))); };
    vf_inv(inv);
    for (u64 i = 0; i < n; ++i) { vf_assume(id(i) < limit); s.set(id(i), value(i)); }
    u64 l = h.last(n);
    vf_ensure("the size covers every stored id", s.size() >= h.maxid(n));
    if (l) { vf_ensure("the value stored last is returned", reads(s, h.q, l)); vf_cover("stored"); }
    else { vf_ensure("ids never stored read as undefined", isdefault(s[h.q], false)); vf_cover("default"); }
}
static bool has(const StlMap<Position>& s, u64 q) { try { s[q]; } catch (std::out_of_range&) { return false; } return true; }
HARNESS(stl_map) {
    u64 n = vf_count("n", 6); Hist h; h.q = vf_engine() ? vf_in_u64("q") : id(vf_in_u64("q") % 8);
    StlMap<Position> s;
    VF_INV(h.last(K) == 0 ? !has(s, h.q) : (has(s, h.q) && reads(s, h.q, h.last(K))));
    VF_INV(s.size() <= K);
    for (u64 i = 0; i < n; ++i) s.set(id(i), value(i));
    u64 l = h.last(n);
    if (l) { vf_ensure("the value stored last is returned", reads(s, h.q, l)); vf_cover("stored"); }
    else {
        vf_ensure("ids never stored are reported by an exception", !has(s, h.q)); vf_cover("missing");
    }
}
static u64 sid(u64 i) { return vf_uf_sorted("sid", i); }
HARNESS(vector) {
    u64 n = vf_count("n", 8), t = vf_engine() ? vf_in_u64("t") : (n ? vf_in_u64("t") % n : 0), q = vf_in_u64("q");
    Vector<Position> s;
    for (u64 i = 0; i < n; ++i) { vf_assume(sid(i) < (1ULL << 63)); s.set(sid(i), value(i)); }
    vf_ensure("the size is the number of values stored", s.size() == n);
    if (n) vf_assume(sid(n - 1) < (1ULL << 63));
    if (t < n) {
        vf_assume(sid(t) < (1ULL << 63));
        vf_ensure("the value stored is returned", s[sid(t)] == value(t)); vf_cover("stored");
        // an id between two stored ones
        vf_assume(q > sid(t) && q < (1ULL << 63));
        if (t + 1 < n) { vf_assume(sid(t + 1) < (1ULL << 63)); vf_assume(q < sid(t + 1)); }
        vf_ensure("ids never stored read as undefined", isdefault(s[q], false)); vf_cover("between");
    } else if (n == 0) vf_ensure("an empty store reads as undefined", isdefault(s[q], false));
}
