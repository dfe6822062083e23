#include <vf.hpp>
#include <osmium/utils/timestamp.hpp>
#include <osmium/osm/node.hpp>
#include <stdexcept>
#ifdef VF_NATIVE
#include <time.h>
#include <string.h>
static void away() { setenv("TZ", vf_in_u64("zone") & 1 ? "America/New_York" : "Asia/Kolkata", 1); tzset(); }
static const char* texts[] = {"2012-05-01T12:34:56Z", "2000-02-29T23:59:59Z", "", "2012-05-01", "2012-13-01T12:34:56Z", "2012-05-01T12:34:56", "2012-05-01 12:34:56Z", "2012-5-1T1:2:3Z", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "abc", "05-01-2012T12:34:56Z", "2012-05-01T25:34:56Z", "9999-12-31T23:59:59Z", 0};
const char** vf_pool_user = texts;
static void parts(time_t t, int* f) {      // civil date without the C library
    i64 d = t / 86400, s = t % 86400; if (s < 0) { s += 86400; --d; }
    f[3] = s / 3600; f[4] = s / 60 % 60; f[5] = s % 60;
    d += 719468; i64 era = (d >= 0 ? d : d - 146096) / 146097; i64 doe = d - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    f[2] = doy - (153 * mp + 2) / 5 + 1; f[1] = mp < 10 ? mp + 3 : mp - 9; f[0] = yoe + era * 400 + (f[1] <= 2);
}
// the form: number of digits may be shorter as strptime accepts; judged on text that starts like a date or clearly does not
static int form(const char* s) { int a, b, c, d, e, f, n = 0; if (!*s || !(*s >= '0' && *s <= '9')) return 0; if (sscanf(s, "%4d-%2d-%2dT%2d:%2d:%2dZ%n", &a, &b, &c, &d, &e, &f, &n) == 6 && n > 0 && strlen(s) == 20) return b >= 1 && b <= 12 && c >= 1 && c <= 31 && d <= 23 && e <= 59 && f <= 60 ? 1 : 0; return strlen(s) < 12 ? 0 : -1; }
#else
static void away() {}
static void parts(time_t t, int* f) { const char* n[6] = {"gm_year", "gm_mon", "gm_mday", "gm_hour", "gm_min", "gm_sec"}; int o[6] = {1900, 1, 0, 0, 0, 0}; for (int i = 0; i < 6; ++i) f[i] = (int)vf_pure1(n[i], t) + o[i]; }
static int form(const char* s) { return vf_pure2("strptime_ok", vf_s_of(s), vf_s_of("%Y-%m-%dT%H:%M:%SZ")) == 1; }
#endif
static time_t when() {
    time_t t = (time_t)vf_in_i64("t");
    if (!vf_engine() && (t < -30610224000LL || t > 253402300799LL)) t %= 253402300799LL / 10;
    vf_assume(t >= -30610224000LL); vf_assume(t <= 253402300799LL);        // years with four digits
    return t;
}
HARNESS(format) {
    away();
    time_t t = when();
    std::string s = Osmium::Timestamp::to_iso(t);
    if (t == 0) { vf_ensure("an unset timestamp is the empty text", s.empty()); return; }
    int f[6]; parts(t, f);
    vf_ensure("the text is the time in UTC in ISO form", s == vf_fmt("%04d-%02d-%02dT%02d:%02d:%02dZ", f[0], f[1], f[2], f[3], f[4], f[5]));
    vf_cover("formatted");
}
HARNESS(roundtrip) {
    away();
    time_t t = when();
    vf_assume(t != 0);
    std::string s = Osmium::Timestamp::to_iso(t);
    time_t u = 0; bool thrown = false;
    try { u = Osmium::Timestamp::parse_iso(s.c_str()); } catch (std::exception&) { thrown = true; }
    vf_ensure("the text of a timestamp can be parsed", !thrown);
    vf_ensure("parsing the text of a timestamp gives the timestamp", thrown || u == t);
    vf_cover("back");
}
HARNESS(reject) {
    away();
    std::string s = vf_str("s");
    bool thrown = false, other = false; time_t u = 0;
    try { u = Osmium::Timestamp::parse_iso(s.c_str()); } catch (std::invalid_argument&) { thrown = true; } catch (...) { other = true; }
    int f = form(s.c_str());
    vf_ensure("no exception but invalid_argument", !other);
    if (f == 0) { vf_ensure("text that is not a timestamp is rejected", thrown); vf_cover("rejected"); }
    if (f == 1) { vf_ensure("a timestamp is accepted", !thrown); vf_cover("accepted"); }
    bool thrown2 = false; time_t v = 0;
    try { v = Osmium::Timestamp::parse_iso(s.c_str()); } catch (std::invalid_argument&) { thrown2 = true; }
    vf_ensure("parsing the same text again gives the same", thrown == thrown2 && (thrown || u == v));
}
HARNESS(object) {
    away();
    time_t t0 = when();
    std::string s = vf_str("s");
    Osmium::OSM::Node n;
    n.timestamp(t0);
    bool thrown = false, thrown2 = false; time_t u = 0;
    try { u = Osmium::Timestamp::parse_iso(s.c_str()); } catch (std::invalid_argument&) { thrown = true; }
    try { n.timestamp(s.c_str()); } catch (std::invalid_argument&) { thrown2 = true; }
    vf_ensure("an object accepts exactly the timestamps that parse", thrown == thrown2);
    vf_ensure("the timestamp of an object is the parsed one, or unchanged after invalid text", n.timestamp() == (thrown ? t0 : u));
    if (thrown) vf_cover("kept");
    else vf_cover("set");
}
HARNESS(object_text) {
    away();
    time_t t = when();
    Osmium::OSM::Node n;
    n.timestamp(t);
    vf_ensure("the timestamp text of an object is the formatted timestamp", n.timestamp_as_string() == Osmium::Timestamp::to_iso(t));
    vf_cover("text");
}
