// LIMIT: 500
// FLAGS: -DVF_OSTREAM_HOOK
#include <vf.hpp>
#include <sstream>
#include <iomanip>
#include <stdio.h>
#include <string.h>
#ifdef VF_ENGINE
// the iterators of the standard vector lie in namespace std, where for_each is found; those of stubs/std/vector are pointers
#include <algorithm>
namespace Osmium { namespace Geometry { using std::for_each; } }
#endif
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/geometry/point.hpp>
#include <osmium/geometry/linestring.hpp>
#include <osmium/geometry/polygon.hpp>
using namespace Osmium::OSM; namespace G = Osmium::Geometry;
static i64 ref(u64 i) { return vf_i64s("ref", i); }
static Position at(u64 i) { return Position((i32)vf_i32s("x", i), (i32)vf_i32s("y", i)); }
// what is written: vertices in order of output, the prefix of the text, the fields before the vertices
static u64 g_n, g_rev, g_srid, g_kind; static const char* g_prefix; static const char* g_suffix; static u32 g_type;
static Position vertex(u64 i) { return at(g_rev ? g_n - 1 - i : i); }
static u64 bits(double d) { return vf_d2bits(d); }
static u64 fields() { return 1 + 4 + (g_srid ? 4 : 0) + (g_kind == 1 ? 0 : g_kind == 2 ? 4 : 8); }
static u64 size() { return fields() + 16 * g_n; }
static u64 header(u64 p, u64& len) {       // the field at position p
    u64 t = g_type | (g_srid ? 0x20000000u : 0); u64 s = g_srid ? 9 : 5;
    if (p == 0) { len = 1; return 1; }
    len = 4;
    if (p == 1) return t;
    if (g_srid && p == 5) return 4326;
    if (g_kind == 3 && p == s) return 1;
    return g_n;
}
static u64 coordinate(u64 p) { u64 i = (p - fields()) >> 4; Position v = vertex(i); return ((p - fields()) & 8) ? bits(v.lat()) : bits(v.lon()); }
static u64 g_pos, g_k, g_hex; static std::string g_text;
static u64 byte_at(u64 p) {
    if (p >= fields()) return coordinate(p - ((p - fields()) & 7)) >> (8 * ((p - fields()) & 7)) & 255;
    if (p == 0) return 1;
    u64 len; return header(p - ((p - 1) & 3), len) >> (8 * ((p - 1) & 3)) & 255;
}
static char digit(u64 d) { return (char)(d < 10 ? '0' + d : 'A' + (d - 10)); }
#ifdef VF_ENGINE
static void field(u64 v, long n) {
    if (g_pos < fields()) { u64 len; u64 e = header(g_pos, len); vf_ensure("byte order, type, srid and counts come first, each in its place", v == e && (u64)n == len); }
    else { vf_ensure("nothing follows the last vertex", g_pos < size()); vf_ensure("each vertex has its longitude and latitude, in this order", n == 8 && ((g_pos - fields()) & 7) == 0 && v == coordinate(g_pos)); }
    g_pos += n;
}
void vf_on_bytes(const char* s, long n) {
    if (n == 1) field(*(const unsigned char*)s, 1); else if (n == 4) field(*(const u32*)s, 4); else if (n == 8) field(bits(*(const double*)s), 8);
    else vf_unsupported("a piece of binary output of another size");
}
void vf_on_text(unsigned long h) { std::string s; s.h = h; if (g_text.h == std::string().h) g_text = s; else if (g_text.h == std::string(g_prefix).h) g_text = std::string(g_prefix) + s; else g_text += s; }
void vf_on_char(char c) {
    if (!g_hex) { g_text += c; return; }
    vf_ensure("nothing follows the last vertex", g_pos < 2 * size());
    u64 b = byte_at(g_pos >> 1); vf_ensure("each digit is that of a half of the byte at its place in the binary", c == digit(((g_pos & 1) ? b : b >> 4) & 15));
    ++g_pos;
}
void vf_on_double(double v, int precision, bool fixed) {
    vf_ensure("there are two numbers for each vertex", g_k < 2 * g_n);
    vf_ensure("numbers have ten digits", precision == 10 && !fixed);
    Position p = vertex(g_k >> 1);
    vf_ensure("longitude and latitude of each vertex, in this order", bits(v) == bits(g_k & 1 ? p.lat() : p.lon()));
    if (g_k == 0) vf_ensure("the text starts with the type", g_text == g_prefix); else vf_ensure("a space between longitude and latitude, a comma between vertices", g_text == ((g_k & 1) ? " " : ","));
    g_text = ""; ++g_k;
}
struct Out : public std::ostream {};
static void wkt_done(Out&) { vf_ensure("every vertex is written", g_k == 2 * g_n); vf_ensure("the text ends where the geometry does", g_text == (g_n ? std::string(g_suffix) : std::string(g_prefix) + g_suffix)); }
static void hex_done(Out&) { vf_ensure("every vertex is written", g_pos == 2 * size()); }
static void wkb_done(Out&) { vf_ensure("every vertex is written", g_pos == size()); }
#else
typedef std::ostringstream Out;
static void wkt_done(Out& o) {
    std::string s = g_prefix; char b[80];
    for (u64 i = 0; i < g_n; ++i) { snprintf(b, sizeof(b), "%s%.10g %.10g", i ? "," : "", vertex(i).lon(), vertex(i).lat()); s += b; }
    vf_ensure("the text is the one of the geometry", o.str() == s + g_suffix);
}
static std::string wkb() {
    std::string s;
    for (u64 p = 0; p < fields();) { u64 len; u64 v = header(p, len); s.append((const char*)&v, len); p += len; }
    for (u64 p = fields(); p < size(); p += 8) { u64 v = coordinate(p); s.append((const char*)&v, 8); }
    return s;
}
static void wkb_done(Out& o) { vf_ensure("the binary is the one of the geometry", o.str() == wkb()); }
static void hex_done(Out& o) {
    std::string h; for (u64 i = 0; i < size(); ++i) { h += digit(byte_at(i) >> 4); h += digit(byte_at(i) & 15); }
    vf_ensure("the hex is that of the binary", o.str() == h);
}
#endif
static void start(int form, u64 kind, u64 n, u64 rev, const char* prefix, const char* srid_prefix, const char* suffix) {
    g_kind = kind; g_n = n; g_rev = rev; g_srid = vf_in_u64("srid") & 1; g_prefix = g_srid ? srid_prefix : prefix; g_suffix = suffix; g_type = kind; g_pos = g_k = 0; g_hex = form == 2; g_text = "";
}
static void list(WayNodeList& l, u64 n) { for (u64 i = 0; i < n; ++i) l.add(WayNode(ref(i), at(i))); }
static void point(int form) {
    start(form, 1, 1, 0, "POINT(", "SRID=4326;POINT(", ")");
    Node n; n.id(vf_in_i64("id")); n.position(at(0)); Out o; u64 how = vf_in_u64("how") & 1;
    G::Point p(at(0)), q(n); G::Point& r = how ? q : p;
    if (form == 0) { o << r.as_WKT(g_srid); wkt_done(o); } else if (form == 1) { o << r.as_WKB(g_srid); wkb_done(o); } else { o << r.as_HexWKB(g_srid); hex_done(o); }
    vf_ensure("a point has the position and the id of its node", bits(r.lon()) == bits(at(0).lon()) && bits(r.lat()) == bits(at(0).lat()) && r.position() == at(0) && r.id() == (how ? n.id() : 0));
    vf_cover("written");
}
HARNESS(point_wkt) { point(0); }
HARNESS(point_wkb) { point(1); }
HARNESS(point_hex) { point(2); }
static void line(int form, bool rev) {
    start(form, 2, vf_size("n", 6), rev, "LINESTRING(", "SRID=4326;LINESTRING(", ")");
    Way w; list(w.nodes(), g_n); w.id(vf_in_i64("id")); G::LineString l(w, rev); Out o;
    if (form == 0) { o << l.as_WKT(g_srid); wkt_done(o); } else if (form == 1) { o << l.as_WKB(g_srid); wkb_done(o); } else { o << l.as_HexWKB(g_srid); hex_done(o); }
    vf_ensure("a line has the id of its way", l.id() == w.id() && l.reverse() == rev);
    vf_cover("written");
}
HARNESS(line_wkt) { line(0, false); }
HARNESS(line_wkt_reverse) { line(0, true); }
HARNESS(line_wkb) { line(1, false); }
HARNESS(line_wkb_reverse) { line(1, true); }
static void polygon(int form, bool rev) {
    start(form, 3, vf_size("n", 6), rev, "POLYGON((", "SRID=4326;POLYGON((", "))");
    Way w; list(w.nodes(), g_n); w.id(vf_in_i64("id")); Out o; u64 n = g_n; bool closed = n > 0 && ref(0) == ref(n - 1);
    try {
        G::Polygon l(w, rev);
        vf_ensure("a ring that is not closed is refused", closed);
        if (form == 0) { o << l.as_WKT(g_srid); wkt_done(o); } else if (form == 1) { o << l.as_WKB(g_srid); wkb_done(o); } else { o << l.as_HexWKB(g_srid); hex_done(o); }
        vf_ensure("a polygon has the id of its way", l.id() == w.id() && l.reverse() == rev);
        vf_cover("written");
    } catch (G::RingNotClosed&) { vf_ensure("a closed ring is not refused", !closed); vf_cover("refused"); }
}
HARNESS(polygon_wkt) { polygon(0, false); }
HARNESS(polygon_wkt_reverse) { polygon(0, true); }
HARNESS(polygon_wkb) { polygon(1, false); }
HARNESS(polygon_wkb_reverse) { polygon(1, true); }
HARNESS(line_hex) { line(2, false); }
HARNESS(line_hex_reverse) { line(2, true); }
HARNESS(polygon_hex) { polygon(2, false); }
HARNESS(polygon_hex_reverse) { polygon(2, true); }
