// Assumed contract of boost::shared_ptr: shared ownership with an exact use count.
#ifndef VFB_SHARED
#define VFB_SHARED
#include <stddef.h>
namespace boost {
    struct vf_cnt { long uses; };
    template <class T> struct weak_ptr;
    template <class T> struct shared_ptr {
        typedef T element_type;
        T* px; vf_cnt* pn;
        shared_ptr() : px(0), pn(0) {}
        explicit shared_ptr(T* p) : px(p), pn(new vf_cnt) { pn->uses = 1; }
        template <class Y> explicit shared_ptr(Y* p) : px(p), pn(new vf_cnt) { pn->uses = 1; }
        shared_ptr(const shared_ptr& o) : px(o.px), pn(o.pn) { if (pn) ++pn->uses; }
        shared_ptr(shared_ptr&& o) : px(o.px), pn(o.pn) { o.px = 0; o.pn = 0; }
        template <class Y> shared_ptr(const shared_ptr<Y>& o) : px(o.px), pn(o.pn) { if (pn) ++pn->uses; }
        template <class Y> shared_ptr(const shared_ptr<Y>& o, T* p) : px(p), pn(o.pn) { if (pn) ++pn->uses; }
        ~shared_ptr() { drop(); }
        void drop() { if (pn) { --pn->uses; } }
        shared_ptr& operator=(const shared_ptr& o) { if (o.pn) ++o.pn->uses; drop(); px = o.px; pn = o.pn; return *this; }
        template <class Y> shared_ptr& operator=(const shared_ptr<Y>& o) { if (o.pn) ++o.pn->uses; drop(); px = o.px; pn = o.pn; return *this; }
        void reset() { drop(); px = 0; pn = 0; }
        template <class Y> void reset(Y* p) { shared_ptr t(p); swap(t); }
        void swap(shared_ptr& o) { T* p = px; px = o.px; o.px = p; vf_cnt* n = pn; pn = o.pn; o.pn = n; }
        T& operator*() const { return *px; }
        T* operator->() const { return px; }
        T* get() const { return px; }
        long use_count() const { return pn ? pn->uses : 0; }
        bool unique() const { return use_count() == 1; }
        bool operator!() const { return px == 0; }
        explicit operator bool() const { return px != 0; }
    };
    template <class T, class U> bool operator==(const shared_ptr<T>& a, const shared_ptr<U>& b) { return a.px == b.px; }
    template <class T, class U> bool operator!=(const shared_ptr<T>& a, const shared_ptr<U>& b) { return a.px != b.px; }
    template <class T> struct weak_ptr { T* px; weak_ptr() : px(0) {} template <class Y> weak_ptr(const shared_ptr<Y>& o) : px(o.px) {} };
    template <class T> struct scoped_ptr { T* px; explicit scoped_ptr(T* p = 0) : px(p) {} ~scoped_ptr() { if (px) delete px; } scoped_ptr(const scoped_ptr&) = delete; T* get() const { return px; } T& operator*() const { return *px; } T* operator->() const { return px; } void reset(T* p = 0) { T* o = px; px = p; if (o) delete o; } explicit operator bool() const { return px != 0; } };
    template <class T, class... A> shared_ptr<T> make_shared(A&&... a) { return shared_ptr<T>(new T(static_cast<A&&>(a)...)); }
    template <class T, class U> shared_ptr<T> static_pointer_cast(const shared_ptr<U>& p) { return shared_ptr<T>(p, static_cast<T*>(p.px)); }
    template <class T, class U> shared_ptr<T> const_pointer_cast(const shared_ptr<U>& p) { return shared_ptr<T>(p, const_cast<T*>(p.px)); }
    template <class T, class U> shared_ptr<T> dynamic_pointer_cast(const shared_ptr<U>& p) { T* q = dynamic_cast<T*>(p.px); return q ? shared_ptr<T>(p, q) : shared_ptr<T>(); }
}
#endif
