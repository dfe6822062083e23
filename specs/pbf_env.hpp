// The PBF reader with the messages of specs/pbf: what the messages say is arbitrary, where they come from is up to the specification
#ifndef PBF_ENV_HPP
#define PBF_ENV_HPP
#include "file_env.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
#include <osmium/input/pbf.hpp>
namespace vfp {
u64 nstrings, current, nkv;
Array<std::string> strings;
static u64 ngroup, delivered; static bool no_tags; static int kind;    // kind of the group: 0 dense, 1 nodes, 2 ways, 3 relations
static Array<OSMPBF::Node> nodes; static Array<OSMPBF::Way> ways; static Array<OSMPBF::Relation> relations;
#ifdef VF_ENGINE
u64 start(u64 i) { return vf_uf1("start", i); }
#else
u64 start(u64 i) { u64 s = 0; for (u64 k = 0; k < i; ++k) s += 2 * tags(k) + 1; return s; }
#endif
static void any_strings() { nstrings = vf_size("strings", 6); vf_assume(nstrings < (1u << 30)); nstrings += 2; strings.fill(nstrings, "string"); }
}
namespace OSMPBF {
// keys, values and an end for each node
int DenseNodes::keys_vals_size() const {
    if (vf_engine() && !vfp::no_tags) { u64 c = vfp::delivered; vf_assume(c >= vfp::ngroup || (vfp::start(c + 1) == vfp::start(c) + 2 * (u64)vfp::tags(c) + 1 && vfp::start(c + 1) <= vfp::nkv)); }
    return (int)vfp::nkv;
}
i32 DenseNodes::keys_vals(int p) const {
    u64 s = 0, t = 0, c = vfp::delivered;
    if (vf_engine()) { s = vfp::start(c); t = vfp::tags(c); } else for (c = 0; c < vfp::ngroup; ++c) { s = vfp::start(c); t = vfp::tags(c); if ((u64)p <= s + 2 * t) break; }
    u64 d = (u64)p - s;
    if (d > 2 * t) return vf_i32s("other tag", (u64)p);
    if (d == 2 * t) return 0;
    return (i32)((d & 1) ? vfp::val(c, d >> 1) : vfp::key(c, d >> 1));
}
bool PrimitiveGroup::has_dense() const { return vfp::kind == 0; }
int PrimitiveGroup::nodes_size() const { return vfp::kind == 1 ? (int)vfp::ngroup : 0; }
int PrimitiveGroup::ways_size() const { return vfp::kind == 2 ? (int)vfp::ngroup : 0; }
int PrimitiveGroup::relations_size() const { return vfp::kind == 3 ? (int)vfp::ngroup : 0; }
const Node& PrimitiveGroup::nodes(int i) const { return vfp::nodes[(u64)(u32)i]; }
const Way& PrimitiveGroup::ways(int i) const { return vfp::ways[(u64)(u32)i]; }
const Relation& PrimitiveGroup::relations(int i) const { return vfp::relations[(u64)(u32)i]; }
}
// a reader (its buffers are large: natively, one after the other uses the same memory)
template <class R, class H> static R* a_reader(const Osmium::OSMFile& f, H& h) {
#ifdef VF_ENGINE
    return new R(f, h);
#else
    static void* mem = malloc(sizeof(R)); return new (mem) R(f, h);
#endif
}
#endif
