#ifndef VFS_RT
#define VFS_RT
#include <stdint.h>
#include <stddef.h>
extern "C" {
void vf_assume_(bool); void vf_assert_(bool, const char*);
void* vf_new_region(uint64_t stride, const char* key); void vf_copy_region(void* d, const void* s); void vf_copy_elems(void* d, uint64_t di, const void* s, uint64_t si, uint64_t n);
void vf_fill_elem(void* d, uint64_t lo, uint64_t hi, const void* src); void vf_zero_region(void*); void vf_set_count(void*, uint64_t); void vf_free_region(void*);
uint64_t vf_obj_id(const void*); void* vf_obj_ptr(uint64_t); bool vf_same_obj(const void*, const void*);
uint64_t vf_s_of(const char*); uint64_t vf_s_ofn(const char*, uint64_t); const char* vf_s_ptr(uint64_t); uint64_t vf_s_len(uint64_t); char vf_s_at(uint64_t, uint64_t); uint64_t vf_s_cat(uint64_t, uint64_t); uint64_t vf_s_chr(char);
uint64_t vf_s_sub(uint64_t, uint64_t, uint64_t); uint64_t vf_s_rfind(uint64_t, char); uint64_t vf_s_find(uint64_t, char, uint64_t); int vf_s_cmp(uint64_t, uint64_t); bool vf_s_eq(uint64_t, uint64_t);
uint64_t vf_s_dec(int64_t); uint64_t vf_s_udec(uint64_t); uint64_t vf_s_dbl(const char* fmt, double); uint64_t vf_s_format(const char*, ...);
void vf_s_put(char*, uint64_t); uint64_t vf_pure1(const char*, uint64_t); uint64_t vf_pure2(const char*, uint64_t, uint64_t); uint64_t vf_s_fn1(const char*, uint64_t); uint64_t vf_fresh_u64(const char*); void vf_stop(); void vf_unsupported(const char*); bool vf_s_coded(uint64_t); void vf_havoc_obj(void*, uint64_t);
}
inline void* operator new(size_t, void* p) noexcept { return p; }
inline void* operator new[](size_t, void* p) noexcept { return p; }
inline void operator delete(void*, void*) noexcept {}
#endif
