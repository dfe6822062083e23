#include <vf.hpp>
#include "file_env.hpp"
#include <osmium/input.hpp>
using namespace Osmium::OSM;
static ssize_t vf_read(int, void*, size_t) { return 0; }
// keeps what it is told to keep
struct Keep : public Osmium::Handler::Base {
    mutable bool want; mutable u64 count; mutable const void* last; mutable shared_ptr<Node const> n; mutable shared_ptr<Way const> w; mutable shared_ptr<Relation const> r;
    Keep() : Osmium::Handler::Base(), want(false), count(0), last(0) {}
    void node(const shared_ptr<Node const>& o) const { ++count; last = o.get(); if (want) n = o; }
    void way(const shared_ptr<Way const>& o) const { ++count; last = o.get(); if (want) w = o; }
    void relation(const shared_ptr<Relation const>& o) const { ++count; last = o.get(); if (want) r = o; }
};
struct In : public Osmium::Input::Base<Keep> {
    In(const Osmium::OSMFile& f, Keep& k) : Osmium::Input::Base<Keep>(f, k) {}
    void parse() {}
};
static Node& prepare(In& in, Node*) { return in.prepare_node(); } static Way& prepare(In& in, Way*) { return in.prepare_way(); } static Relation& prepare(In& in, Relation*) { return in.prepare_relation(); }
static void call(In& in, Node*) { in.call_node_on_handler(); } static void call(In& in, Way*) { in.call_way_on_handler(); } static void call(In& in, Relation*) { in.call_relation_on_handler(); }
static shared_ptr<Node>& member(In& in, Node*) { return in.m_node; } static shared_ptr<Way>& member(In& in, Way*) { return in.m_way; } static shared_ptr<Relation>& member(In& in, Relation*) { return in.m_relation; }
static shared_ptr<Node const>& kept(Keep& k, Node*) { return k.n; } static shared_ptr<Way const>& kept(Keep& k, Way*) { return k.w; } static shared_ptr<Relation const>& kept(Keep& k, Relation*) { return k.r; }
static bool has(const char* what, u64 i) { return i != 1 || (vf_uf1(what, i) & 1); }    // (object 1 may lack a user, tags, contents)
static void own(Node& o, u64 i) { o.position(Position(vf_i32s("x", i), vf_i32s("y", i))); } static void own(Way& o, u64 i) { if (has("contents", i)) o.add_node(vf_i64s("ref", i)); } static void own(Relation& o, u64 i) { if (has("contents", i)) o.add_member('w', vf_i64s("ref", i), "r"); }
static bool isown(const Node& o, u64 i) { return o.position().x() == vf_i32s("x", i) && o.position().y() == vf_i32s("y", i); }
static bool isown(const Way& o, u64 i) { if (!has("contents", i)) return o.nodes().size() == 0; return o.nodes().size() == 1 && o.nodes()[0].ref() == vf_i64s("ref", i); }
static bool isown(const Relation& o, u64 i) { if (!has("contents", i)) return o.members().size() == 0; return o.members().size() == 1 && o.get_member(0)->ref() == vf_i64s("ref", i) && o.get_member(0)->type() == 'w' && std::string(o.get_member(0)->role()) == "r"; }
static bool pristine(const Node& o) { return !o.position().defined(); } static bool pristine(const Way& o) { return o.nodes().size() == 0; } static bool pristine(const Relation& o) { return o.members().size() == 0; }
template <class T> static void fill(T& o, u64 i) {
    o.id(vf_i64s("id", i)); o.version(vf_i32s("version", i)); o.changeset(vf_i32s("changeset", i)); o.uid(vf_i32s("uid", i)); o.timestamp(vf_i64s("timestamp", i)); o.endtime(vf_i64s("endtime", i)); o.visible(vf_uf1("visible", i) & 1);
    if (has("user", i)) o.user("u"); if (has("tag", i)) o.tags().add("k", vf_strs("value", i).c_str()); own(o, i);
}
template <class T> static bool filled(const T& o, u64 i) {
    return o.id() == vf_i64s("id", i) && o.version() == vf_i32s("version", i) && o.changeset() == vf_i32s("changeset", i) && o.uid() == vf_i32s("uid", i) && o.timestamp() == vf_i64s("timestamp", i) && o.endtime() == vf_i64s("endtime", i)
        && o.visible() == ((vf_uf1("visible", i) & 1) != 0) && std::string(o.user()) == (has("user", i) ? "u" : "") && (has("tag", i) ? o.tags().size() == 1 && std::string(o.tags().begin()->key()) == "k" && std::string(o.tags().begin()->value()) == vf_strs("value", i) : o.tags().size() == 0);
}
template <class T> static bool fresh(const T& o) {
    return o.id() == 0 && o.version() == 0 && o.changeset() == 0 && o.uid() == -1 && o.timestamp() == 0 && o.endtime() == 0 && o.visible() && std::string(o.user()) == "" && o.tags().size() == 0;
}
// One step of the parser from any state: it has no object yet, or one of its own, or one that the handler keeps (or kept and
// released). The state after the step is again one of these, so this holds along every history.
template <class T> static void step() {
    Keep k; In in(Osmium::OSMFile("x.osm"), k); T* t = 0; u64 state = vf_pick("state", 0, 5);
    shared_ptr<T const> old;      // an object somebody keeps, from this or an earlier step
    if (state == 1 || state == 2) { T& o = prepare(in, t); fill(o, 1); }                     // only the parser has it
    if (state == 3) { T& o = prepare(in, t); fill(o, 1); k.want = true; call(in, t); old = kept(k, t); kept(k, t).reset(); }   // kept by the handler
    if (state == 4) { T& o = prepare(in, t); fill(o, 1); k.want = true; call(in, t); old = kept(k, t); kept(k, t).reset(); T& p = prepare(in, t); fill(p, 3); }  // an older one is kept
    if (state == 2) { k.want = true; call(in, t); kept(k, t).reset(); }                       // kept and released again
    k.want = vf_in_bool("keep"); u64 c = k.count; const T* o0 = member(in, t).get();
    T& o = prepare(in, t);
    vf_ensure("an object to fill is the parser's current object", member(in, t).get() == &o);
    vf_ensure("an object starts without attributes and tags", fresh(o));
    vf_ensure("an object starts without contents of its own", pristine(o));
    vf_ensure("no object that is kept is used again", !old || old.get() != &o);
    fill(o, 2);
    if (old) { vf_ensure("what is kept stays as it was while the next object is filled", filled(*old, 1) && isown(*old, 1)); vf_cover("kept"); }
    call(in, t);
    vf_ensure("the object is given to the handler once", k.count == c + 1 && k.last == &o);
    if (k.want) {
        vf_ensure("the handler keeps the object itself", kept(k, t).get() == &o && filled(*kept(k, t), 2) && isown(*kept(k, t), 2));
        T& p = prepare(in, t); fill(p, 3);
        vf_ensure("the kept object is not used for the next one", &p != &o && filled(o, 2) && isown(o, 2) && filled(*kept(k, t), 2) && isown(*kept(k, t), 2));
        vf_cover("keeps");
    }
    if (old) vf_ensure("what was kept before stays as it was", filled(*old, 1) && isown(*old, 1));
}
HARNESS(node) { step<Node>(); }
HARNESS(way) { step<Way>(); }
HARNESS(relation) { step<Relation>(); }
// objects of the three types are independent of each other
HARNESS(other_types) {
    Keep k; In in(Osmium::OSMFile("x.osm"), k); u64 what = vf_pick("what", 0, 3);
    fill(in.prepare_node(), 1); fill(in.prepare_way(), 2); fill(in.prepare_relation(), 3);
    const Node* n = in.m_node.get(); const Way* w = in.m_way.get(); const Relation* r = in.m_relation.get();
    if (what == 0) fill(in.prepare_node(), 4); else if (what == 1) fill(in.prepare_way(), 4); else fill(in.prepare_relation(), 4);
    if (what != 0) vf_ensure("preparing another object leaves the node alone", in.m_node.get() == n && filled(*n, 1) && isown(*n, 1));
    if (what != 1) vf_ensure("preparing another object leaves the way alone", in.m_way.get() == w && filled(*w, 2) && isown(*w, 2));
    if (what != 2) vf_ensure("preparing another object leaves the relation alone", in.m_relation.get() == r && filled(*r, 3) && isown(*r, 3));
}
