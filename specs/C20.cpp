#include <vf.hpp>
#include <cstdlib>
#include <osmium/osmfile.hpp>
using namespace Osmium;
typedef OSMFile::FileType T; typedef OSMFile::FileEncoding E;
struct Kind { T* t; E* e; };
// the documented suffixes; everything else is the default
static Kind kind(const std::string& x) {
    Kind k = { T::OSM(), E::PBF() };
    if (x == "osm") k.e = E::XML(); else if (x == "osm.gz") k.e = E::XMLgz(); else if (x == "osm.bz2") k.e = E::XMLbz2();
    else if (x == "osh.pbf") k.t = T::History(); else if (x == "osh") { k.t = T::History(); k.e = E::XML(); }
    else if (x == "osh.gz") { k.t = T::History(); k.e = E::XMLgz(); } else if (x == "osh.bz2") { k.t = T::History(); k.e = E::XMLbz2(); }
    else if (x == "osc") { k.t = T::Change(); k.e = E::XML(); } else if (x == "osc.gz") { k.t = T::Change(); k.e = E::XMLgz(); } else if (x == "osc.bz2") { k.t = T::Change(); k.e = E::XMLbz2(); }
    return k;
}
static bool is_url(const std::string& s) { size_t c = s.find_first_of(':'); if (c == std::string::npos) return false; std::string p = s.substr(0, c); return p == "http" || p == "https"; }
// what follows the first dot of the last component of the path
static size_t start_of_name(const std::string& s) { size_t n = s.find_last_of('/'); return n == std::string::npos ? 0 : n + 1; }
static std::string suffix(const std::string& s) { size_t d = s.find_first_of('.', start_of_name(s)); return d == std::string::npos ? std::string("") : s.substr(d + 1); }
static std::string name(const char* n) {
    if (vf_engine()) return vf_str(n);
    static const char* const parts[] = { "osm", "osh", "osc", "pbf", "gz", "bz2", ".", ".", ".", "/", "/", "http", "https", ":", "a", "-", "b.c", "..", "" };
    std::string s; u64 m = vf_in_u64("parts") % 7;
    for (u64 i = 0; i < m; ++i) s += parts[vf_uf1("part", i) % (sizeof(parts) / sizeof(*parts))];
    return s;
}
HARNESS(from_name) {
    std::string s = name("name");
    OSMFile f(s);
    if (s == "" || s == "-") {
        vf_ensure("standard input and output are PBF without history", f.type() == T::OSM() && f.encoding() == E::PBF() && f.filename() == "");
    } else if (is_url(s)) {
        vf_ensure("a URL is XML without history", f.type() == T::OSM() && f.encoding() == E::XML());
    } else {
        Kind k = kind(suffix(s));
        vf_ensure("the type follows from the suffix", f.type() == k.t);
        vf_ensure("the encoding follows from the suffix", f.encoding() == k.e);
    }
    if (s != "-") vf_ensure("the file keeps its name", f.filename() == s);
    vf_ensure("a new file object is not open", f.fd() == -1 && f.m_childpid == 0);
}
HARNESS(from_suffix) {
    OSMFile f; std::string s = name("suffix"); bool def = vf_in_bool("history before");
    if (def) { f.type("osh"); f.encoding("gz"); }
    f.set_type_and_encoding(s);
    Kind k = kind(s);
    vf_ensure("type and encoding are those of the suffix", f.type() == k.t && f.encoding() == k.e && f.filename() == "" && f.fd() == -1);
}
HARNESS(known_suffixes) {
    vf_ensure("suffix of PBF files", OSMFile("x.pbf").encoding() == E::PBF() && OSMFile("x.osm.pbf").encoding() == E::PBF() && OSMFile("d.e/x.osm.pbf").type() == T::OSM());
    vf_ensure("suffix of XML files", OSMFile("x.osm").encoding() == E::XML() && OSMFile("x.osm.gz").encoding() == E::XMLgz() && OSMFile("../x.osm.bz2").encoding() == E::XMLbz2());
    vf_ensure("suffix of history files", OSMFile("/a.b/x.osh").type() == T::History() && OSMFile("x.osh").encoding() == E::XML() && OSMFile("x.osh.pbf").encoding() == E::PBF() && OSMFile("x.osh.gz").encoding() == E::XMLgz());
    vf_ensure("suffix of change files", OSMFile("x.osc").type() == T::Change() && OSMFile("x.osc").encoding() == E::XML() && OSMFile("x.osc.bz2").encoding() == E::XMLbz2());
    vf_ensure("no suffix", OSMFile("x").type() == T::OSM() && OSMFile("x").encoding() == E::PBF() && OSMFile("osm").encoding() == E::PBF() && OSMFile("a.osc/osc").type() == T::OSM());
}
// any state of a file object
static void any(OSMFile& f) {
    u64 t = vf_pick("type before", 0, 3), e = vf_pick("encoding before", 0, 4);
    f.type(t == 0 ? T::OSM() : t == 1 ? T::History() : T::Change());
    f.encoding(e == 0 ? E::PBF() : e == 1 ? E::XML() : e == 2 ? E::XMLgz() : E::XMLbz2());
}
HARNESS(set_type) {
    OSMFile f("x.osm.gz"); any(f); T* t = f.type(); E* e = f.encoding(); std::string s = name("type"); bool threw = false; std::string value;
    bool known = s == "osm" || s == "history" || s == "osh" || s == "change" || s == "osc";
    try { f.type(s); } catch (OSMFile::ArgumentError& x) { threw = true; value = x.value(); }
    vf_ensure("exactly the documented type names are accepted", threw == !known);
    if (threw) { vf_ensure("a rejected type changes nothing", f.type() == t); vf_ensure("the exception carries the name", value == s); vf_cover("rejected"); }
    else vf_ensure("a type name means its type", f.type() == (s == "osm" ? T::OSM() : s == "history" || s == "osh" ? T::History() : T::Change()));
    vf_ensure("setting the type changes nothing else", f.encoding() == e && f.filename() == "x.osm.gz" && f.fd() == -1);
}
HARNESS(set_encoding) {
    OSMFile f("x.osm.gz"); any(f); T* t = f.type(); E* e = f.encoding(); std::string s = name("encoding"); bool threw = false; std::string value;
    bool known = s == "pbf" || s == "xml" || s == "xmlgz" || s == "gz" || s == "xmlbz2" || s == "bz2";
    try { f.encoding(s); } catch (OSMFile::ArgumentError& x) { threw = true; value = x.value(); }
    vf_ensure("exactly the documented encoding names are accepted", threw == !known);
    if (threw) { vf_ensure("a rejected encoding changes nothing", f.encoding() == e); vf_ensure("the exception carries the name", value == s); vf_cover("rejected"); }
    else vf_ensure("an encoding name means its encoding", f.encoding() == (s == "pbf" ? E::PBF() : s == "xml" ? E::XML() : s == "xmlgz" || s == "gz" ? E::XMLgz() : E::XMLbz2()));
    vf_ensure("setting the encoding changes nothing else", f.type() == t && f.filename() == "x.osm.gz" && f.fd() == -1);
}
HARNESS(flags) {
    OSMFile f("x"); any(f);
    vf_ensure("change and history files have multiple object versions", f.has_multiple_object_versions() == (f.type() != T::OSM()));
    vf_ensure("default suffix of a type", f.type()->suffix() == (f.type() == T::OSM() ? ".osm" : f.type() == T::History() ? ".osh" : ".osc"));
    vf_ensure("only the PBF encoding is PBF", f.encoding()->is_pbf() == (f.encoding() == E::PBF()));
    vf_ensure("default suffix of an encoding", f.encoding()->suffix() == (f.encoding() == E::PBF() ? ".pbf" : f.encoding() == E::XML() ? "" : f.encoding() == E::XMLgz() ? ".gz" : ".bz2"));
    vf_ensure("compressed encodings name their helper programs", f.encoding()->compress() == (f.encoding() == E::XMLgz() ? "gzip" : f.encoding() == E::XMLbz2() ? "bzip2" : "") && f.encoding()->decompress() == (f.encoding() == E::XMLgz() ? "zcat" : f.encoding() == E::XMLbz2() ? "bzcat" : ""));
    vf_ensure("types are different", T::OSM() != T::History() && T::OSM() != T::Change() && T::History() != T::Change());
    vf_ensure("encodings are different", E::PBF() != E::XML() && E::PBF() != E::XMLgz() && E::PBF() != E::XMLbz2() && E::XML() != E::XMLgz() && E::XML() != E::XMLbz2() && E::XMLgz() != E::XMLbz2());
}
HARNESS(names) {
    std::string s = name("name"), t = name("other"); OSMFile f("x.osc"); any(f); T* ty = f.type(); E* en = f.encoding();
    f.filename(t); f.filename(s);
    vf_ensure("the name set last is kept; - means standard input or output", f.filename() == (s == "-" ? std::string("") : s));
    vf_ensure("setting the name changes neither type nor encoding", f.type() == ty && f.encoding() == en);
    if (s != "-") {
        size_t b = start_of_name(s), d = s.find_first_of('.', b);
        std::string base = d == std::string::npos ? s : s.substr(0, d);
        vf_ensure("the name without suffix keeps the directory", f.filename_without_suffix() == base);
        vf_ensure("the default suffix replaces the suffix", f.filename_with_default_suffix() == base + ty->suffix() + en->suffix());
    }
}
