#ifndef VFB_OPERATORS
#define VFB_OPERATORS
namespace boost {
    struct vf_noarg {};
    template <class T, class U = T> struct less_than_comparable {
        friend bool operator>(const T& x, const T& y) { return y < x; }
        friend bool operator<=(const T& x, const T& y) { return !(y < x); }
        friend bool operator>=(const T& x, const T& y) { return !(x < y); }
    };
    template <class T, class U = T> struct equality_comparable { friend bool operator!=(const T& x, const T& y) { return !(x == y); } };
    template <class T, class U = T> struct totally_ordered : less_than_comparable<T, U>, equality_comparable<T, U> {};
}
#endif
