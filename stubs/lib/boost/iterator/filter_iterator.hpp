#ifndef VFB_FILTER
#define VFB_FILTER
#include <bits/stl_iterator_base_types.h>
namespace boost {
    template <class P, class I> struct filter_iterator {
        typedef std::forward_iterator_tag iterator_category; typedef typename std::iterator_traits<I>::value_type value_type; typedef typename std::iterator_traits<I>::reference reference; typedef typename std::iterator_traits<I>::pointer pointer; typedef ptrdiff_t difference_type;
        P p; I i, e;
        filter_iterator() {}
        filter_iterator(P f, I x, I end = I()) : p(f), i(x), e(end) { skip(); }
        filter_iterator(I x, I end = I()) : p(), i(x), e(end) { skip(); }
        void skip() { while (i != e && !p(*i)) ++i; }
        reference operator*() const { return *i; }
        pointer operator->() const { return &*i; }
        filter_iterator& operator++() { ++i; skip(); return *this; }
        filter_iterator operator++(int) { filter_iterator t(*this); ++*this; return t; }
        bool operator==(const filter_iterator& o) const { return i == o.i; }
        bool operator!=(const filter_iterator& o) const { return i != o.i; }
        P predicate() const { return p; }
        I const& base() const { return i; }
        I end() const { return e; }
    };
    template <class P, class I> filter_iterator<P, I> make_filter_iterator(P f, I x, I end = I()) { return filter_iterator<P, I>(f, x, end); }
}
#endif
