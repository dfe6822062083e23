// Native runtime of the specification language: replays a counterexample or samples inputs.
#include <vf.hpp>
#include <map>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <exception>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
#include <typeinfo>
#include <stdexcept>
struct Skip {};
static u64 seed, ctr; static bool replaying; static std::string failed; static bool isfailed;
static std::map<std::string, u64> vals; static std::map<std::string, std::map<std::string, u64> > arrs; static std::map<u64, std::string> strs;
static std::map<std::string, int> occ;
static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
static u64 hs(const char* s) { u64 h = 1469598103934665603ULL; while (*s) h = (h ^ (u8)*s++) * 1099511628211ULL; return h; }
static std::vector<u64> recent;
static u64 biased(u64 r, int w) {
    u64 m = w == 64 ? ~0ULL : (1ULL << w) - 1;
    u64 q = mix(r); u64 v;
    unsigned cls = r % 16;
    static const u64 ext[] = {0, 1, ~0ULL, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 255, 256, 65535, 65536, 1800000000, (u64)-1800000000, 900000000, (u64)-900000000};
    unsigned mode = seed % 5;              // a run as a whole leans towards one kind of value
    if (mode == 1 && cls < 12) cls = 1;
    if (mode == 2 && cls < 10) cls = 12;
    if (cls < 6) { v = q % 8; if (cls == 5) v = (u64)-(i64)v; }
    else if (cls < 8) v = q % 1000;
    else if (cls < 9) v = ext[q % (sizeof ext / sizeof *ext)];
    else if (cls < 10) v = (u64)((i64)(q % 2000001) - 1000000);
    else if (cls < 12 && !recent.empty()) { v = recent[q % recent.size()]; u64 d = mix(q) % 6; if (d == 1) v++; else if (d == 2) v--; else if (d == 3) v = (u64)-(i64)v; }
    else if (cls < 14) v = (u64)((i64)(q % 3600000001ULL) - 1800000000);
    else v = q;
    v &= m; if (recent.size() < 64) recent.push_back(w == 32 ? (u64)(i64)(i32)v : v);
    return v;
}
static u64 scalar(const char* n, int w) {
    int k = occ[n]++;
    if (replaying) { char b[200]; snprintf(b, sizeof b, "%s#%d", n, k); std::map<std::string, u64>::iterator i = vals.find(b); return i == vals.end() ? 0 : i->second; }
    return biased(mix(seed * 1000003 + hs(n) + k * 7919), w);
}
u64 vf_in_u64(const char* n) { return scalar(n, 64); }
u32 vf_in_u32(const char* n) { return (u32)scalar(n, 32); }
u16 vf_in_u16(const char* n) { return (u16)scalar(n, 16); }
u8 vf_in_u8(const char* n) { return (u8)scalar(n, 8); }
bool vf_in_bool(const char* n) { return replaying ? scalar(n, 1) & 1 : mix(scalar(n, 64) + seed) & 1; }
double vf_in_double(const char* n) { if (replaying) return vf_bits2d(scalar(n, 64)); u64 r = mix(seed * 77 + hs(n)); if (r % 8 == 0) return (double)((i64)(mix(r) % 361) - 180); return (double)((i64)(mix(r) % 3600000001ULL) - 1800000000) / 1e7; }
u64 vf_size(const char* n, u64 small) { if (replaying) { u64 v = scalar(n, 64); return v > 200 ? 200 : v; } u64 r = mix(seed * 31 + hs(n)); return r % 64 == 63 ? (mix(r) % 600) : mix(r) % (small + 1); }
u64 vf_count(const char* n, u64 small) { return vf_size(n, small); }
static u64 arr(const char* n, const std::string& k) {
    if (replaying) { std::map<std::string, u64>& m = arrs[n]; std::map<std::string, u64>::iterator i = m.find(k); return i == m.end() ? 0 : i->second; }
    std::map<std::string, u64>& m = arrs[n]; std::map<std::string, u64>::iterator i = m.find(k);
    if (i != m.end()) return i->second;
    return m[k] = biased(mix(seed * 1000003 + hs(n) * 31 + hs(k.c_str())), 64);
}
u64 vf_uf1(const char* n, u64 i) { char b[64]; snprintf(b, sizeof b, "%llu", (unsigned long long)i); return arr(n, b); }
u64 vf_uf2(const char* n, u64 i, u64 j) { char b[64]; snprintf(b, sizeof b, "%llu,%llu", (unsigned long long)i, (unsigned long long)j); return arr(n, b); }
u64 vf_uf_sorted(const char* n, u64 i) { if (replaying) return vf_uf1(n, i); u64 v = mix(seed * 5 + hs(n)) % 4; for (u64 j = 0; j < i; ++j) v += 1 + mix(seed * 7 + hs(n) + j) % (mix(seed + j) % 9 == 0 ? 1000000 : 3); return v; }
extern const char* vf_pool[]; const char* vf_pool_default[] = {"", "a", "b", "key", "name", "highway", "area", "yes", "no", "k", "v", "aa", "type", "multipolygon", "x\xc3\xa4y", "<&>\"", 0};
extern const char** vf_pool_user __attribute__((weak)); 
static std::string pick(u64 r) {
    const char** p = (&vf_pool_user && vf_pool_user && mix(r * 3) % 3) ? vf_pool_user : vf_pool_default; int n = 0; while (p[n]) n++;
    u64 q = mix(r);
    if (q % 37 == 0) { std::string s; u64 l = mix(q) % 40; for (u64 i = 0; i < l; ++i) s += (char)('a' + mix(q + i) % 26); return s; }
    if (q % 211 == 1) return std::string(mix(q) % 1200, 'q');
    return p[mix(q) % n];
}
std::string vf_str(const char* n) { if (replaying) return strs[scalar(n, 64)]; int k = occ[n]++; return pick(mix(seed * 13 + hs(n) + k * 101)); }
std::string vf_strs(const char* n, u64 i) { if (replaying) return strs[vf_uf1(n, i)]; return pick(mix(seed * 17 + hs(n) + i * 7 + 1)); }
std::string vf_strs(const char* n, u64 i, u64 j) { if (replaying) return strs[vf_uf2(n, i, j)]; return pick(mix(seed * 19 + hs(n) + i * 1009 + j)); }
void vf_assume_(bool c) { if (!c && !isfailed) throw Skip(); }
void vf_stop() { throw Skip(); }
void vf_assert_(bool c, const char* n) { if (!c && !isfailed) { isfailed = true; failed = n; } }
void vf_trace(const char* n, u64 v) { fprintf(stderr, "TRACE %s %llu\n", n, (unsigned long long)v); }
std::string vf_dec(i64 v) { char b[32]; snprintf(b, sizeof b, "%lld", (long long)v); return b; }
std::string vf_dbl(const char* f, double v) { char b[400]; snprintf(b, sizeof b, f, v); return b; }
std::string vf_fmt(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static volatile u64* shared;
int main(int argc, char** argv) {
    // vfn replay <harness> <file> | vfn search <harness> <seed> <count> <seconds> <statusfile>
    if (argc < 4) return 2;
    void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, (std::string("vfh_") + argv[2]).c_str());
    if (!h) { fprintf(stderr, "no harness %s\n", argv[2]); return 2; }
    if (!strcmp(argv[1], "replay")) {
        replaying = true;
        FILE* f = fopen(argv[3], "r"); char kind[16]; char name[256]; unsigned long long v;
        while (fscanf(f, "%15s", kind) == 1) {
            if (!strcmp(kind, "v") && fscanf(f, "%255s %llu", name, &v) == 2) vals[name] = v;
            else if (!strcmp(kind, "a")) { char k[64]; if (fscanf(f, "%255s %63s %llu", name, k, &v) == 3) arrs[name][k] = v; }
            else if (!strcmp(kind, "s")) { unsigned n; if (fscanf(f, "%llu %u", &v, &n) == 2) { std::string s; for (unsigned i = 0; i < n; ++i) { unsigned c; if (fscanf(f, "%u", &c) != 1) break; s += (char)c; } strs[v] = s; } }
        }
        fclose(f); seed = 0;
        try { h(); } catch (Skip&) { if (!isfailed) { printf("SKIP\n"); return 3; } } catch (std::exception& e) { printf("FAILED uncaught exception %s\n", e.what()); return 1; } catch (...) { printf("FAILED uncaught exception\n"); return 1; }
        if (isfailed) { printf("FAILED %s\n", failed.c_str()); return 1; }
        printf("PASSED\n"); return 0;
    }
    u64 s0 = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10); double lim = atof(argv[5]);
    FILE* sf = fopen(argv[6], "w+"); int ig = ftruncate(fileno(sf), 64); (void)ig;
    shared = (volatile u64*)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fileno(sf), 0);
    struct timeval t0, t; gettimeofday(&t0, 0); u64 ran = 0, skipped = 0;
    for (u64 i = 0; i < n; ++i) {
        seed = s0 + i; shared[0] = seed; shared[1] = 1; shared[2] = ran; shared[3] = skipped; isfailed = false; occ.clear(); recent.clear(); arrs.clear();
        if (shared[4]) alarm(20);
        try { h(); ++ran; } catch (Skip&) { ++skipped; if (!isfailed) goto next; } catch (std::exception& e) { if (!isfailed) { isfailed = true; failed = std::string("uncaught exception ") + e.what(); } } catch (...) { isfailed = true; failed = "uncaught exception"; }
        if (isfailed) { shared[1] = 2; printf("FAILED %s\n", failed.c_str()); printf("SEED %llu\nRAN %llu SKIPPED %llu\n", (unsigned long long)seed, (unsigned long long)ran, (unsigned long long)skipped); return 1; }
next:
        if ((i & 15) == 0) { gettimeofday(&t, 0); if ((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) / 1e6 > lim) break; }
    }
    shared[1] = 0;
    printf("RAN %llu SKIPPED %llu\n", (unsigned long long)ran, (unsigned long long)skipped);
    return 0;
}
