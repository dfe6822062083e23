// NATIVE-FLAGS: -lboost_regex
#include <vf.hpp>
#include <osmium/tags/key_filter.hpp>
#include <osmium/tags/key_value_filter.hpp>
#include <osmium/tags/regex_filter.hpp>
using namespace Osmium::OSM;
using namespace Osmium::Tags;
// a few different texts, so that they meet
static std::string text(const char* what, u64 i) { if (vf_engine()) return vf_strs(what, i); return vf_strs("text", vf_pick(what, i, 4)); }
static std::string key(u64 i) { return text("key", i); }
static std::string value(u64 i) { return text("value", i); }
static bool has_value(u64 i) { return vf_uf1("has value", i) & 1; }
static bool result(u64 i) { return vf_uf1("result", i) & 1; }

HARNESS(key_filter) {
    u64 n = vf_size("n", 6); bool def = vf_in_bool("default");
    std::string k = text("tag key", 0), v = text("tag value", 0); Tag tag(k.c_str(), v.c_str());
    KeyFilter f(def);
    for (u64 i = 0; i < n; ++i) { std::string t = key(i); KeyFilter& r = f.add(result(i), t.c_str()); vf_ensure("adding a rule returns the filter", vf_same_obj(&r, &f)); }
    auto m = [&](u64 i) { return key(i) == k; };
    VF_INV(K > n || vf_first(n, n, m) == vf_first(n, n - K, m)); VF_INV(K > n || vf_first(n, n, m) == (K > 0 && m(K - 1) ? K : vf_first(n, n - K, m)));
    u64 first = vf_first(n, n, m);
    bool want = (first != 0) & result(first - 1) | (first == 0) & def; u64 way = vf_in_u8("way of asking");
    if (way == 0) vf_ensure("a key filter gives the result of the first rule with the key of the tag, else the default", f(tag) == want);
    else if (way == 1) { KeyFilter g(f); vf_ensure("a copy of a key filter answers the same", g(tag) == want); }
    else { f(tag); vf_ensure("asking again gives the same answer", f(tag) == want); }
    vf_ensure("the tag is not changed", k == tag.key() && v == tag.value());
    if (first) vf_cover("rule matches"); else vf_cover("default");
}
HARNESS(key_value_filter) {
    u64 n = vf_size("n", 6); bool def = vf_in_bool("default");
    std::string k = text("tag key", 0), v = text("tag value", 0); Tag tag(k.c_str(), v.c_str());
    KeyValueFilter f(def);
    for (u64 i = 0; i < n; ++i) {
        std::string t = key(i), u = value(i); KeyValueFilter* r;
        if (has_value(i)) r = &f.add(result(i), t.c_str(), u.c_str()); else r = &f.add(result(i), t.c_str());
        vf_ensure("adding a rule returns the filter", vf_same_obj(r, &f));
    }
    std::string none("");
    auto m = [&](u64 i) { return key(i) == k && (!has_value(i) || value(i) == none || value(i) == v); };
    VF_INV(K > n || vf_first(n, n, m) == vf_first(n, n - K, m)); VF_INV(K > n || vf_first(n, n, m) == (K > 0 && m(K - 1) ? K : vf_first(n, n - K, m)));
    u64 first = vf_first(n, n, m);
    bool want = (first != 0) & result(first - 1) | (first == 0) & def; u64 way = vf_in_u8("way of asking");
    if (way == 0) vf_ensure("a key/value filter gives the result of the first rule that matches the tag, else the default", f(tag) == want);
    else if (way == 1) { KeyValueFilter g(f); vf_ensure("a copy of a key/value filter answers the same", g(tag) == want); }
    else { f(tag); vf_ensure("asking again gives the same answer", f(tag) == want); }
    if (first) vf_cover("rule matches"); else vf_cover("default");
}
#ifdef VF_NATIVE
// expressions with a known meaning
static std::string expr(const char* what, u64 i) { static const char* e[] = {"a.*", "ab", ".*b", "[a-c]+"}; return e[vf_pick(what, i, 4)]; }
static std::string subject(const char* what) { static const char* e[] = {"ab", "abc", "xb", "ABC", "a"}; return e[vf_pick(what, 0, 5)]; }
static bool matches(const std::string& t, const std::string& e) { return boost::regex_match(t, boost::regex(e)); }
#else
static std::string expr(const char* what, u64 i) { return text(what, i); }
static std::string subject(const char* what) { return text(what, 0); }
static bool matches(const std::string& t, const std::string& e) { return vf_pure2("regex", t.h, e.h) & 1; }
#endif
HARNESS(regex_filter) {
    u64 n = vf_size("n", 6); bool def = vf_in_bool("default");
    std::string k = subject("tag key"), v = subject("tag value"); Tag tag(k.c_str(), v.c_str());
    RegexFilter f(def);
    for (u64 i = 0; i < n; ++i) {
        std::string t = expr("key", i), u = expr("value", i); RegexFilter* r;
        if (has_value(i)) r = &f.add(result(i), t.c_str(), u.c_str()); else r = &f.add(result(i), t.c_str());
        vf_ensure("adding a rule returns the filter", vf_same_obj(r, &f));
    }
    auto m = [&](u64 i) { return matches(k, expr("key", i)) && (!has_value(i) || matches(v, expr("value", i))); };
    VF_INV(K > n || vf_first(n, n, m) == vf_first(n, n - K, m)); VF_INV(K > n || vf_first(n, n, m) == (K > 0 && m(K - 1) ? K : vf_first(n, n - K, m)));
    u64 first = vf_first(n, n, m);
    bool want = (first != 0) & result(first - 1) | (first == 0) & def; u64 way = vf_in_u8("way of asking");
    if (way == 0) vf_ensure("a regex filter gives the result of the first rule whose expressions match the tag, else the default", f(tag) == want);
    else { f(tag); vf_ensure("asking again gives the same answer", f(tag) == want); }
    if (first) vf_cover("rule matches"); else vf_cover("default");
}
