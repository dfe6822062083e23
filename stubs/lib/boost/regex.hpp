// Assumed contract of boost::regex: compiling depends on the text only; an expression matches a whole text or not, as an
// arbitrary function of both texts; an expression that was never set is empty and matches only the empty text.
#ifndef VFB_REGEX
#define VFB_REGEX
#include <string>
namespace boost {
    struct regex {
        std::string s; bool set;
        regex() : s(""), set(false) {} explicit regex(const char* t) : s(t), set(true) {} explicit regex(const std::string& t) : s(t), set(true) {}
        regex& operator=(const char* t) { s = t; set = true; return *this; } regex& operator=(const std::string& t) { s = t; set = true; return *this; }
        bool empty() const { return !set; }
        bool matches(u64 h) const { return set ? (vf_pure2("regex", h, s.h) & 1) != 0 : h == std::string("").h; }
    };
    inline bool regex_match(const char* s, const regex& r) { return r.matches(vf_s_of(s)); }
    inline bool regex_match(const std::string& s, const regex& r) { return r.matches(s.h); }
    inline bool regex_search(const char* s, const regex& r) { return (vf_pure2("regex search", vf_s_of(s), r.s.h) & 1) != 0; }
}
#endif
