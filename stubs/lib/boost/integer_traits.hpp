#ifndef VFB_INTTRAITS
#define VFB_INTTRAITS
#include <limits>
namespace boost { template <class T> struct integer_traits : std::numeric_limits<T> { static const T const_max = std::numeric_limits<T>::max(); static const T const_min = std::numeric_limits<T>::min(); }; }
#endif
