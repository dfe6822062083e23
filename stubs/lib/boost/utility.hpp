#ifndef VFB_UTILITY
#define VFB_UTILITY
namespace boost { struct noncopyable { noncopyable() {} noncopyable(const noncopyable&) = delete; noncopyable& operator=(const noncopyable&) = delete; }; }
#endif
