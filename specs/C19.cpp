// FLAGS: -I@V/specs/xmlw -I@V/stubs/geos
// NATIVE-FLAGS: -I@V/specs/xmlw -I@V/stubs/geos
// REPLACE: Osmium::Timestamp::to_iso WITH iso
#include <vf.hpp>
#include "file_env.hpp"
#define __XML_XMLWRITER_H__
#include "xmlw/libxml/xmlwriter.h"
#include <osmium/osm.hpp>
#include <osmium/handler.hpp>
#include <osmium/output/xml.hpp>
using namespace Osmium::OSM;
typedef Osmium::Output::XML Out;
typedef Osmium::OSMFile File;
static ssize_t vf_read(int, void*, size_t) { return 0; }
static char g_thing[16]; static int g_writers;
#ifdef VF_ENGINE
extern "C" std::string iso(time_t t) { return vf_strs("iso", (u64)t); }       // (what C25 proves about it is not needed here)
#endif
static std::string iso_of(time_t t) { return vf_engine() ? vf_strs("iso", (u64)t) : Osmium::Timestamp::to_iso(t); }
xmlOutputBufferPtr xmlOutputBufferCreateFd(int fd, void*) { vf_ensure("what is written goes to the file", fd == 5); return (xmlOutputBufferPtr)g_thing; }
xmlTextWriterPtr xmlNewTextWriter(xmlOutputBufferPtr b) { ++g_writers; return (xmlTextWriterPtr)g_thing; }
void xmlFreeTextWriter(xmlTextWriterPtr) { --g_writers; }
int xmlTextWriterStartDocument(xmlTextWriterPtr, const char*, const char*, const char*) { return 0; }
// ---- what is open: the root element, a section, an object or the bounds, an element inside an object
static bool g_root; static char g_section, g_object, g_child;
static u32 g_seen, g_want;             // attributes of the innermost element: written, to be written
static bool g_attrs;                   // no child element has been started yet: attributes may still be written
static u64 g_n, g_tags, g_done_n, g_done_tags, g_objects;  // references or members and tags of the object; written ones; objects written
static char g_type, g_op; static bool g_change;
static u64 g_id, g_time, g_version; static i32 g_uid, g_changeset; static std::string g_user, g_generator; static bool g_visible; static double g_lat, g_lon, g_box[4];
static std::string g_minlon, g_minlat, g_maxlon, g_maxlat;
static std::string key(u64 i) { return vf_strs("key", i); } static std::string val(u64 i) { return vf_strs("val", i); } static std::string role(u64 i) { return vf_strs("role", i); }
static i64 ref(u64 i) { return vf_i64s("ref", i); } static char mtype(u64 i) { return (char)vf_uf1("type", i); }
static bool is(const xmlChar* a, const char* b) { return vf_is((const char*)a, b); }
enum { a_id = 1, a_version = 2, a_timestamp = 4, a_uid = 8, a_user = 16, a_changeset = 32, a_visible = 64, a_lat = 128, a_lon = 256, a_k = 512, a_v = 1024, a_ref = 2048, a_type = 4096, a_role = 8192, a_generator = 16384, a_minlon = 1 << 15, a_minlat = 1 << 16, a_maxlon = 1 << 17, a_maxlat = 1 << 18 };
static u32 object_want() {
    return a_id | (g_version != 0) * a_version | (g_time != 0) * a_timestamp | (g_uid > 0) * (a_uid | a_user) | (g_changeset != 0) * a_changeset;
}
static u32 g_object_want;
static void complete() { if (g_attrs) { vf_ensure("an element has exactly the attributes it should have", g_seen == g_want); g_attrs = false; } }
static void opened(u32 want) { g_seen = 0; g_want = want; g_attrs = true; }
int xmlTextWriterStartElement(xmlTextWriterPtr, const xmlChar* n) {
    complete();
    if (!g_root) {
        vf_ensure("the root element matches the type of the file", is(n, g_change ? "osmChange" : "osm"));
        g_root = true; opened(a_version | a_generator);
    } else if (g_object) {
        vf_ensure("elements inside objects are not nested", g_child == 0);
        if (is(n, "tag")) { vf_ensure("an object has as many tags as it should have", g_done_tags < g_tags); g_child = 't'; opened(a_k | a_v); }
        else if (g_object == 'w') { vf_ensure("a way has node references inside", is(n, "nd") && g_done_n < g_n); g_child = 'n'; opened(a_ref); }
        else { vf_ensure("a relation has members inside", g_object == 'r' && is(n, "member") && g_done_n < g_n); g_child = 'm'; opened(a_type | a_ref | a_role); }
    } else if (is(n, "create") || is(n, "modify") || is(n, "delete")) {
        vf_ensure("sections are in change files only and are not nested", g_change && !g_section);
        g_section = *n; opened(0);
    } else if (is(n, "bounds")) {
        vf_ensure("the bounds stand before everything else", g_type == 'b' && !g_section);
        g_object = 'b'; opened(a_minlon | a_minlat | a_maxlon | a_maxlat);
    } else {
        vf_ensure("an object is written as an element of its type", (g_type == 'n' && is(n, "node")) || (g_type == 'w' && is(n, "way")) || (g_type == 'r' && is(n, "relation")));
        vf_ensure("an object of a change file is in the section for its version and visibility", g_section == g_op);
        g_object = g_type; g_done_n = g_done_tags = 0; opened(g_object_want);
    }
    return 0;
}
int xmlTextWriterEndElement(xmlTextWriterPtr) {
    complete();
    if (g_child) { if (g_child == 't') ++g_done_tags; else ++g_done_n; g_child = 0; }
    else if (g_object) { if (g_object != 'b') { vf_ensure("an object is written with all references, members and tags", g_done_n == g_n && g_done_tags == g_tags); ++g_objects; } g_object = 0; }
    else if (g_section) g_section = 0;
    else { vf_ensure("only open elements are closed", g_root); g_root = false; }
    return 0;
}
static u32 attribute(const xmlChar* n) {
    return is(n, "id") ? a_id : is(n, "version") ? a_version : is(n, "timestamp") ? a_timestamp : is(n, "uid") ? a_uid : is(n, "user") ? a_user : is(n, "changeset") ? a_changeset : is(n, "visible") ? a_visible :
        is(n, "lat") ? a_lat : is(n, "lon") ? a_lon : is(n, "k") ? a_k : is(n, "v") ? a_v : is(n, "ref") ? a_ref : is(n, "type") ? a_type : is(n, "role") ? a_role : is(n, "generator") ? a_generator :
        is(n, "minlon") ? a_minlon : is(n, "minlat") ? a_minlat : is(n, "maxlon") ? a_maxlon : is(n, "maxlat") ? a_maxlat : 0;
}
static bool value_is(u32 a, const std::string& v) {
    switch (a) {
        case a_id: return v == vf_dec((i64)g_id);
        case a_version: return g_object ? v == vf_dec((i64)g_version) : v == "0.6";
        case a_timestamp: return v == iso_of((time_t)g_time);
        case a_uid: return v == vf_dec(g_uid);
        case a_user: return v == g_user;
        case a_changeset: return v == vf_dec(g_changeset);
        case a_visible: return v == (g_visible ? "true" : "false");
        case a_lat: return v == vf_dbl("%.7f", g_lat);
        case a_lon: return v == vf_dbl("%.7f", g_lon);
        case a_k: return v == key(g_done_tags);
        case a_v: return v == val(g_done_tags);
        case a_ref: return v == vf_dec(ref(g_done_n));
        case a_type: return v == (mtype(g_done_n) == 'n' ? "node" : mtype(g_done_n) == 'w' ? "way" : mtype(g_done_n) == 'r' ? "relation" : "unknown");
        case a_role: return v == role(g_done_n);
        case a_generator: return v == g_generator;
        case a_minlon: return v == g_minlon; case a_minlat: return v == g_minlat; case a_maxlon: return v == g_maxlon; case a_maxlat: return v == g_maxlat;
    }
    return false;
}
int xmlTextWriterWriteAttribute(xmlTextWriterPtr, const xmlChar* n, const xmlChar* v) {
    u32 a = attribute(n);
    vf_ensure("an element has exactly the attributes it should have", g_attrs && (a & g_want) != 0 && (a & g_seen) == 0);
    vf_ensure("an attribute has its value", value_is(a, std::string((const char*)v)));
    g_seen |= a;
    return 0;
}
static File a_file(int type) { File f("x.osm"); f.type(type == 0 ? File::FileType::OSM() : type == 1 ? File::FileType::History() : File::FileType::Change()); return f; }
// an object with arbitrary attributes and any number of tags; the writer in any state between two objects. What varies:
// any of the attributes may be missing; or they are all there or all missing, and there are any children; or any section is open
enum { attributes, children, sections };
template <class T> static void object(T& o, Out& out, int type, int varies) {
    g_id = vf_in_u64("id"); g_version = vf_in_u32("version"); g_time = vf_in_u64("time"); g_uid = vf_in_i32("uid"); g_changeset = vf_in_i32("changeset"); g_user = vf_str("user"); g_visible = vf_in_bool("visible");
    if (!vf_engine()) { if (vf_in_bool("first version")) g_version = 1; if (g_time & 1) g_time = 0; else g_time &= 0xffffffff; }
    if (varies != attributes) {
        if (vf_in_bool("no attributes")) { g_version = 0; g_time = 0; g_uid = 0; g_changeset = 0; }
        else vf_assume((g_version != 0) & (g_time != 0) & (g_uid > 0) & (g_changeset != 0));
    }
    vf_assume(g_user.size() <= 255 * 4);
    o.id((i64)g_id).version((u32)g_version).timestamp((time_t)g_time).uid(g_uid).changeset(g_changeset).user(g_user.c_str()).visible(g_visible);
    g_tags = varies == children ? vf_size("tags", 3) : 0; g_n = varies == children ? vf_size("refs", 4) : 0;
    for (u64 i = 0; i < g_tags; ++i) o.tags().add(key(i).c_str(), val(i).c_str());
    g_change = type == 2; g_root = true; g_child = g_object = 0; g_attrs = false; g_objects = 0;
    static const char ops[] = {0, 'c', 'm', 'd'};
    g_op = !g_change ? 0 : !g_visible ? 'd' : g_version == 1 ? 'c' : 'm';
    out.m_last_op = g_section = !g_change ? 0 : varies == sections ? ops[vf_pick("section", 0, 4)] : varies == children && !vf_in_bool("in section") ? 0 : g_op;
    g_object_want = object_want() | (type == 1 ? a_visible : 0);
}
static void written(Out& out) {
    vf_ensure("an object is written exactly once", g_objects == 1);
    vf_ensure("all elements of an object are closed", g_root && g_object == 0 && g_child == 0 && g_section == g_op);
    vf_ensure("the writer knows which section is open", out.m_last_op == g_section);
}
static void node(int type, int varies) {
    File f = a_file(type); Out out(f);
    shared_ptr<Node> o = make_shared<Node>(); object(*o, out, type, varies); g_type = 'n'; g_n = 0;
    i32 x = vf_in_i32("x"), y = vf_in_i32("y"); Position p(x, y); if (varies == sections || vf_in_bool("has position")) o->position(p);
    vf_assume(varies != sections || p.defined());
    g_lon = o->position().lon(); g_lat = o->position().lat();
    if (o->position().defined()) g_object_want |= a_lat | a_lon;
    out.node(o);
    written(out);
}
static void way(int type, int varies) {
    File f = a_file(type); Out out(f);
    shared_ptr<Way> o = make_shared<Way>(); object(*o, out, type, varies); g_type = 'w';
    for (u64 i = 0; i < g_n; ++i) o->add_node(ref(i));
    out.way(o);
    written(out);
}
static void relation(int type, int varies) {
    File f = a_file(type); Out out(f);
    shared_ptr<Relation> o = make_shared<Relation>(); object(*o, out, type, varies); g_type = 'r';
    for (u64 i = 0; i < g_n; ++i) { vf_assume(role(i).size() <= 255 * 4); o->add_member(mtype(i), ref(i), role(i).c_str()); }
    out.relation(o);
    written(out);
}
HARNESS(node_attributes) { node(0, attributes); }
HARNESS(node_attributes_history) { node(1, attributes); }
HARNESS(node_attributes_change) { node(2, attributes); }
HARNESS(node_children) { node(vf_in_bool("history") ? 1 : 0, children); }
HARNESS(node_children_change) { node(2, children); }
HARNESS(node_sections) { node(2, sections); }
HARNESS(way_attributes) { way(0, attributes); }
HARNESS(way_attributes_history) { way(1, attributes); }
HARNESS(way_attributes_change) { way(2, attributes); }
HARNESS(way_children) { way(vf_in_bool("history") ? 1 : 0, children); }
HARNESS(way_children_change) { way(2, children); }
HARNESS(way_sections) { way(2, sections); }
HARNESS(relation_attributes) { relation(0, attributes); }
HARNESS(relation_attributes_history) { relation(1, attributes); }
HARNESS(relation_attributes_change) { relation(2, attributes); }
HARNESS(relation_children) { relation(vf_in_bool("history") ? 1 : 0, children); }
HARNESS(relation_children_change) { relation(2, children); }
HARNESS(relation_sections) { relation(2, sections); }
// the document before the first object and after the last
HARNESS(document) {
    int type = (int)vf_pick("file type", 0, 3);
    File f = a_file(type); g_writers = 0; Out out(f);
    g_change = type == 2; g_root = false; g_section = g_object = g_child = 0; g_attrs = false; g_type = 'b'; g_objects = 0; g_op = 0;
    g_generator = vf_str("generator"); out.set_generator(g_generator);
    Meta meta; bool bounds = vf_in_bool("bounds");
    if (bounds) {
        Position a((i32)vf_in_i32("x"), (i32)vf_in_i32("y")), b((i32)vf_in_i32("x2"), (i32)vf_in_i32("y2")); vf_assume(a.defined() && b.defined());
        meta.bounds().extend(a).extend(b);
        g_minlon = vf_dbl("%.7f", meta.bounds().bottom_left().lon()); g_minlat = vf_dbl("%.7f", meta.bounds().bottom_left().lat()); g_maxlon = vf_dbl("%.7f", meta.bounds().top_right().lon()); g_maxlat = vf_dbl("%.7f", meta.bounds().top_right().lat());
    }
    out.init(meta);
    complete();
    vf_ensure("after the start of the document the root element is open, and nothing else", g_root && g_object == 0 && g_section == 0 && out.m_last_op == 0);
    static const char ops[] = {0, 'c', 'm', 'd'};
    out.m_last_op = g_section = g_change ? ops[vf_pick("section", 0, 4)] : 0;
    out.final();
    vf_ensure("at the end every element is closed and the writer is freed", !g_root && g_section == 0 && g_object == 0 && g_writers == 0);
    vf_ensure("no objects are made up", g_objects == 0);
}
