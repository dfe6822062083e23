// boost::bind of a member function, an object and the first argument of the call
#ifndef VFB_BIND
#define VFB_BIND
namespace boost {
    template <class F, class H> struct vf_bound { F f; H* h; template <class A> void operator()(const A& a) const { (h->*f)(a); } };
}
struct vf_placeholder {}; static const vf_placeholder _1 = vf_placeholder();
namespace boost { template <class F, class H> vf_bound<F, H> bind(F f, H* h, vf_placeholder) { vf_bound<F, H> b = {f, h}; return b; } }
#endif
