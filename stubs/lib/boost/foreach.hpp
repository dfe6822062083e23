#ifndef VFB_FOREACH
#define VFB_FOREACH
#include <utility>
#define BOOST_FOREACH(d, c) for (d : c)
#define foreach BOOST_FOREACH
#undef foreach
// a pair of iterators is a range
namespace std { template <class I> I begin(const pair<I, I>& p) { return p.first; } template <class I> I end(const pair<I, I>& p) { return p.second; } }
#endif
