// Specification language. The same specification text is read by the verifier (symbolically, VF_ENGINE) and
// compiled natively (VF_NATIVE) to replay counterexamples and for the bounded stand-in.
#ifndef VF_HPP
#define VF_HPP
#include <stdint.h>
#include <stddef.h>
#include <string>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8; typedef uint16_t u16;

#ifdef VF_ENGINE
extern "C" {
u64 vf_in_u64(const char*); u32 vf_in_u32(const char*); u16 vf_in_u16(const char*); u8 vf_in_u8(const char*); bool vf_in_bool(const char*);
double vf_in_double(const char*); u64 vf_in_str(const char*);
u64 vf_uf1(const char*, u64); u64 vf_uf2(const char*, u64, u64); u64 vf_ufs1(const char*, u64); u64 vf_ufs2(const char*, u64, u64);
u64 vf_unless0(u64, u64); u64 vf_uf_sorted(const char*, u64); void vf_set_count(void*, u64); void vf_free_region(void*);
u64 vf_pure1(const char*, u64); u64 vf_pure2(const char*, u64, u64); u64 vf_s_fn1(const char*, u64);
void vf_assume_(bool); void vf_assert_(bool, const char*); void vf_cover_(const char*); void vf_stop();
void vf_reg_inv(int kind, void* clo, void* fn, const char* tag); void vf_clear_inv(); void vf_set_unroll(int);
u64 vf_fold_(void* fn, void* clo, u64 init, u64 k); u64 vf_foldd_(void* fn, void* clo, u64 init, u64 k);
void* vf_new_region(u64 stride, const char* key); void vf_copy_region(void* d, const void* s); void vf_copy_elems(void* d, u64 di, const void* s, u64 si, u64 n);
void vf_fill_elem(void* d, u64 lo, u64 hi, const void* src); void vf_zero_region(void*); void vf_havoc_obj(void*, u64);
u64 vf_obj_id(const void*); void* vf_obj_ptr(u64); bool vf_same_obj(const void*, const void*);
u64 vf_s_of(const char*); u64 vf_s_ofn(const char*, u64); const char* vf_s_ptr(u64); u64 vf_s_len(u64); char vf_s_at(u64, u64); u64 vf_s_cat(u64, u64); u64 vf_s_chr(char);
u64 vf_s_sub(u64, u64, u64); u64 vf_s_rfind(u64, char); u64 vf_s_find(u64, char, u64); int vf_s_cmp(u64, u64); bool vf_s_eq(u64, u64);
u64 vf_s_dec(i64); u64 vf_s_udec(u64); u64 vf_s_dbl(const char* fmt, double); u64 vf_s_format(const char*, ...); void vf_s_put(char*, u64);
u64 vf_d2bits(double); double vf_bits2d(u64); u64 vf_fresh_u64(const char*); void vf_trace(const char*, u64);
}
template <class F> inline bool vf_thunk_b(void* c, u64 k) { return (*(F*)c)(k); }
template <class F> inline u64 vf_thunk_v(void* c, u64 k) { return (*(F*)c)(k); }
template <class F> inline u64 vf_thunk_s(void* c, u64 k) { return (*(F*)c)(k).h; }
// a property of the state after K iterations of a loop, offered to the verifier as an inductive invariant
template <class F> inline void vf_inv(F& f, const char* tag = "") { vf_reg_inv(0, &f, (void*)&vf_thunk_b<F>, tag); }
// the value some modified location has after K iterations
template <class F> inline void vf_val(F& f, const char* tag = "") { vf_reg_inv(1, &f, (void*)&vf_thunk_v<F>, tag); }
template <class F> inline void vf_vals(F& f, const char* tag = "") { vf_reg_inv(1, &f, (void*)&vf_thunk_s<F>, tag); }
template <class F> inline u64 vf_thunk_f(void* c, u64 acc, u64 k) { return (*(F*)c)(acc, k); }
template <class F> inline u64 vf_thunk_fs(void* c, u64 acc, u64 k) { std::string s; s.h = acc; return (*(F*)c)(s, k).h; }
// fold: f applied k times
template <class F> inline u64 vf_fold(u64 k, u64 init, F& f) { return vf_fold_((void*)&vf_thunk_f<F>, &f, init, k); }
// the same, unfolded once from the other end as well
template <class F> inline u64 vf_foldd(u64 k, u64 init, F& f) { return vf_foldd_((void*)&vf_thunk_f<F>, &f, init, k); }
template <class F> inline std::string vf_folds(u64 k, std::string init, F& f) { std::string r; r.h = vf_s_of(vf_s_ptr(vf_fold_((void*)&vf_thunk_fs<F>, &f, init.h, k))); return r; }
inline std::string vf_str_of(u64 h) { std::string s; s.h = h; return s; }
inline std::string vf_str(const char* n) { return vf_str_of(vf_in_str(n)); }
inline std::string vf_strs(const char* n, u64 i) { return vf_str_of(vf_ufs1(n, i)); }
inline std::string vf_strs(const char* n, u64 i, u64 j) { return vf_str_of(vf_ufs2(n, i, j)); }
inline std::string vf_dec(i64 v) { return vf_str_of(vf_s_dec(v)); }
inline std::string vf_dbl(const char* f, double v) { return vf_str_of(vf_s_dbl(f, v)); }
inline bool vf_engine() { return true; }
#define vf_fmt(...) vf_str_of(vf_s_format(__VA_ARGS__))
#define VF_MAX 0xffffffffffffffffULL
inline u64 vf_size(const char* n, u64) { u64 v = vf_in_u64(n); vf_assume_(v < (1ULL << 30)); return v; }   // elements of one container
inline u64 vf_count(const char* n, u64) { u64 v = vf_in_u64(n); vf_assume_(v < (1ULL << 40)); return v; }  // steps of a history, objects of a stream
#else
u64 vf_in_u64(const char*); u32 vf_in_u32(const char*); u16 vf_in_u16(const char*); u8 vf_in_u8(const char*); bool vf_in_bool(const char*);
double vf_in_double(const char*); std::string vf_str(const char*);
inline u64 vf_unless0(u64 k, u64 v) { return k ? v : 0; } u64 vf_uf_sorted(const char*, u64); u64 vf_uf1(const char*, u64); u64 vf_uf2(const char*, u64, u64); std::string vf_strs(const char*, u64); std::string vf_strs(const char*, u64, u64);
void vf_assume_(bool); void vf_assert_(bool, const char*); inline void vf_cover_(const char*) {} void vf_stop();
template <class F> inline void vf_inv(F&, const char* = "") {}
template <class F> inline void vf_val(F&, const char* = "") {}
template <class F> inline void vf_vals(F&, const char* = "") {}
inline void vf_clear_inv() {} inline void vf_set_unroll(int) {}
template <class F> inline u64 vf_fold(u64 k, u64 init, F& f) { for (u64 i = 0; i < k; ++i) init = f(init, i); return init; }
template <class F> inline u64 vf_foldd(u64 k, u64 init, F& f) { return vf_fold(k, init, f); }
template <class F> inline std::string vf_folds(u64 k, std::string init, F& f) { for (u64 i = 0; i < k; ++i) init = f(init, i); return init; }
std::string vf_dec(i64 v); std::string vf_dbl(const char*, double); std::string vf_fmt(const char*, ...);
u64 vf_size(const char*, u64 small);
u64 vf_count(const char*, u64 small);
inline bool vf_engine() { return false; }
inline u64 vf_d2bits(double d) { u64 u; __builtin_memcpy(&u, &d, 8); return u; }
inline double vf_bits2d(u64 u) { double d; __builtin_memcpy(&d, &u, 8); return d; }
template <class T> inline bool vf_same_obj(const T* a, const T* b) { return a == b; }
inline u64 vf_obj_id(const void* p) { return (u64)p; }
inline void* vf_obj_ptr(u64 v) { return (void*)v; }
void vf_trace(const char*, u64);
#endif
inline i64 vf_in_i64(const char* n) { return (i64)vf_in_u64(n); }
inline i32 vf_in_i32(const char* n) { return (i32)vf_in_u32(n); }
inline i32 vf_i32s(const char* n, u64 i) { return (i32)vf_uf1(n, i); }
inline i64 vf_i64s(const char* n, u64 i) { return (i64)vf_uf1(n, i); }
#define vf_assume(c) vf_assume_(!!(c))
#define vf_ensure(name, c) vf_assert_(!!(c), name)
// one more than the first i in [n-k, n) with f(i), 0 if there is none; vf_first(n, n, f) searches all of them
template <class F> inline u64 vf_first(u64 n, u64 k, F f) { auto g = [n, f](u64 acc, u64 i) -> u64 { return f(n - 1 - i) ? n - i : acc; }; return vf_foldd(k, 0, g); }
// an arbitrary one of 0 .. n-1
inline u64 vf_pick(const char* name, u64 i, u64 n) { u64 v = vf_uf1(name, i); if (!vf_engine()) return v % n; vf_assume_(v < n); return v; }
#define vf_cover(n) vf_cover_(n)
#define vf_unroll(n) vf_set_unroll(n)
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_INV_(n, ...) auto n = [&](u64 K) -> bool { (void)K; return (__VA_ARGS__); }; vf_inv(n);
#define VF_INV(...) VF_INV_(VF_CAT(inv_at_, __COUNTER__), __VA_ARGS__)
#define HARNESS(name) extern "C" void vfh_##name()
// checked natively on sampled inputs only
#define BOUNDED(name) extern "C" void vfh_##name()
#endif
