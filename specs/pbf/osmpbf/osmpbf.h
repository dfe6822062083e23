// The messages of the OSM PBF format as the reader sees them: every field of every message is an arbitrary function of
// its place (any number of entities, any values). Delta coded columns are given by the values they stand for: A(0),
// A(1)-A(0), A(2)-A(1), ...; string indices are within the table. The same code is used by the verifier and natively.
#ifndef VF_OSMPBF_H
#define VF_OSMPBF_H
#include <string>
#ifndef VF_ENGINE
#include <vector>
#endif
#define GOOGLE_PROTOBUF_VERIFY_VERSION
namespace vfp {
extern u64 nstrings, current, nkv;
inline bool flag(const char* n, u64 i) { return vf_uf1(n, i) & 1; }
inline int size(const char* n, u64 i) { u64 v = vf_uf1(n, i); if (!vf_engine()) return v % 4; vf_assume_(v < (1u << 30)); return (int)v; }
inline u64 pick2(const char* n, u64 i, u64 j, u64 m) { u64 v = vf_uf2(n, i, j); if (!vf_engine()) return v % m; vf_assume_(v < m); return v; }
// the value of a column, and the delta that encodes it
inline i64 value(const char* n, u64 i) { return (i64)vf_uf1(n, i); }
inline i64 value2(const char* n, u64 i, u64 j) { return (i64)vf_uf2(n, i, j); }
inline i64 before(const char* n, u64 k) { return (i64)vf_unless0(k, (u64)value(n, k - 1)); }
inline i64 before2(const char* n, u64 e, u64 k) { return (i64)vf_unless0(k, (u64)value2(n, e, k - 1)); }
inline i64 delta(const char* n, int i) { return (i64)((u64)value(n, (u64)i) - (u64)before(n, (u64)i)); }
inline i64 delta2(const char* n, u64 e, int i) { return (i64)((u64)value2(n, e, (u64)i) - (u64)before2(n, e, (u64)i)); }
// a 31 bit value, so that deltas fit into 32 bits
inline i32 small(const char* n, u64 i) { return (i32)((i32)vf_uf1(n, i) >> 1); }
inline i64 sbefore(const char* n, u64 k) { return (i64)vf_unless0(k, (u64)(i64)small(n, k - 1)); }
inline i32 sdelta(const char* n, int i) { return (i32)((i64)small(n, (u64)i) - sbefore(n, (u64)i)); }
inline u64 user(u64 i) { return vf_pick("user_sid", i, nstrings); }
inline i64 ubefore(u64 k) { return (i64)vf_unless0(k, user(k - 1)); }
inline i32 udelta(int i) { return (i32)((i64)user((u64)i) - ubefore((u64)i)); }
// (entry 0 of the string table is the end mark among the keys and values of dense nodes)
inline u64 key(u64 i, u64 j) { u64 v = vf_uf2("key", i, j); if (!vf_engine()) return 1 + v % (nstrings - 1); vf_assume_((v > 0) & (v < nstrings)); return v; }
inline u64 val(u64 i, u64 j) { return pick2("val", i, j, nstrings); }
inline u64 role(u64 i, u64 j) { return pick2("role", i, j, nstrings); }
inline u64 mtype(u64 i, u64 j) { return pick2("member type", i, j, 3); }
inline int tags(u64 i) { return size("tags", i); }
#ifdef VF_ENGINE
template <class T> struct Array { T* a; void fill(u64 n, const char* key) { a = (T*)vf_new_region(sizeof(T), key); for (u64 i = 0; i < n; ++i) a[i].place(i); } T& operator[](u64 i) { return a[i]; } };
template <> struct Array<std::string> { std::string* a; void fill(u64 n, const char* key) { a = (std::string*)vf_new_region(sizeof(std::string), key); for (u64 i = 0; i < n; ++i) a[i].h = vf_strs("string", i).h; } std::string& operator[](u64 i) { return a[i]; } };
#else
template <class T> struct Array { std::vector<T> a; void fill(u64 n, const char*) { a.clear(); a.resize(n); for (u64 i = 0; i < n; ++i) a[i].place(i); } T& operator[](u64 i) { return a.at(i); } };
template <> struct Array<std::string> { std::vector<std::string> a; void fill(u64 n, const char*) { a.clear(); for (u64 i = 0; i < n; ++i) a.push_back(vf_strs("string", i).c_str()); } std::string& operator[](u64 i) { return a.at(i); } };
#endif
extern Array<std::string> strings;
// where the tags of dense node i start among the keys and values
u64 start(u64 i);
}
namespace OSMPBF {
const int max_blob_header_size = 64 * 1024;
const int max_uncompressed_blob_size = 32 * 1024 * 1024;
const int lonlat_resolution = 1000 * 1000 * 1000;
struct StringTable {
    u64 b;
    int s_size() const { return (int)vfp::nstrings; }
    const std::string& s(int i) const { vf_ensure("strings come from the table of the block", b == vfp::current); vf_ensure("string index within the string table", (u64)i < vfp::nstrings); vf_assume(vfp::strings[(u64)(u32)i].size() <= 255 * 4); return vfp::strings[(u64)(u32)i]; }
};
struct Info {
    u64 i;
    bool has_version() const { return true; } bool has_timestamp() const { return true; } bool has_changeset() const { return true; } bool has_uid() const { return true; } bool has_user_sid() const { return true; }
    i32 version() const { return vf_i32s("version", i); }
    i64 timestamp() const { return vf_i64s("timestamp", i); }
    i64 changeset() const { return vf_i64s("changeset", i); }
    i32 uid() const { return vf_i32s("uid", i); }
    u32 user_sid() const { return (u32)vfp::user(i); }
    bool has_visible() const { return vfp::flag("has visible", i); }
    bool visible() const { return vfp::flag("visible", i); }
};
struct Entity {
    u64 i; Info info_;
    void place(u64 k) { i = k; info_.i = k; }
    i64 id() const { return vfp::value("id", i); }
    bool has_info() const { return vfp::flag("has info", i); }
    const Info& info() const { return info_; }
    int keys_size() const { return vfp::tags(i); }
    int vals_size() const { return vfp::tags(i); }
    u32 keys(int j) const { return (u32)vfp::key(i, (u64)j); }
    u32 vals(int j) const { return (u32)vfp::val(i, (u64)j); }
};
struct Node : Entity { i64 lat() const { return vfp::value("lat", i); } i64 lon() const { return vfp::value("lon", i); } };
struct Way : Entity { int refs_size() const { return vfp::size("refs", i); } i64 refs(int j) const { return vfp::delta2("ref", i, j); } };
enum Relation_MemberType { Relation_MemberType_NODE = 0, Relation_MemberType_WAY = 1, Relation_MemberType_RELATION = 2 };
struct Relation : Entity {
    typedef Relation_MemberType MemberType;
    static const MemberType NODE = Relation_MemberType_NODE, WAY = Relation_MemberType_WAY, RELATION = Relation_MemberType_RELATION;
    int types_size() const { return vfp::size("refs", i); } int memids_size() const { return types_size(); } int roles_sid_size() const { return types_size(); }
    MemberType types(int j) const { return (MemberType)vfp::mtype(i, (u64)j); }
    i64 memids(int j) const { return vfp::delta2("ref", i, j); }
    i32 roles_sid(int j) const { return (i32)vfp::role(i, (u64)j); }
};
struct DenseInfo {
    u64 n;
    int version_size() const { return (int)n; } int timestamp_size() const { return (int)n; } int changeset_size() const { return (int)n; } int uid_size() const { return (int)n; } int user_sid_size() const { return (int)n; }
    i32 version(int i) const { return vf_i32s("version", (u64)i); }
    i64 timestamp(int i) const { return vfp::delta("timestamp", i); }
    i64 changeset(int i) const { return vfp::delta("changeset", i); }
    i32 uid(int i) const { return vfp::sdelta("uid", i); }
    i32 user_sid(int i) const { return vfp::udelta(i); }
    int visible_size() const { return vfp::flag("has visible", 0) ? (int)n : 0; }
    bool visible(int i) const { return vfp::flag("visible", (u64)i); }
};
struct DenseNodes {
    u64 n; DenseInfo info;
    int id_size() const { return (int)n; } int lat_size() const { return (int)n; } int lon_size() const { return (int)n; }
    i64 id(int i) const { return vfp::delta("id", i); }
    i64 lat(int i) const { return vfp::delta("lat", i); }
    i64 lon(int i) const { return vfp::delta("lon", i); }
    bool has_denseinfo() const { return vfp::flag("has info", 0); }
    const DenseInfo& denseinfo() const { return info; }
    int keys_vals_size() const;
    i32 keys_vals(int p) const;
};
struct PrimitiveGroup {
    u64 g; DenseNodes dense_; void place(u64 i) { g = i; }
    bool has_dense() const; const DenseNodes& dense() const { return dense_; }
    int nodes_size() const; int ways_size() const; int relations_size() const;
    const Node& nodes(int i) const; const Way& ways(int i) const; const Relation& relations(int i) const;
};
struct PrimitiveBlock {
    u64 b; StringTable table;
    bool ParseFromArray(const void* p, int n);
    const StringTable& stringtable() const { table.b; return table; }
    i32 granularity() const { return vf_i32s("granularity", b); }
    i64 lat_offset() const { return vf_i64s("lat_offset", b); }
    i64 lon_offset() const { return vf_i64s("lon_offset", b); }
    i32 date_granularity() const { return vf_i32s("date_granularity", b); }
    int primitivegroup_size() const;
    const PrimitiveGroup& primitivegroup(int i) const;
};
struct HeaderBBox { u64 b; i64 left() const { return vf_i64s("left", 0); } i64 right() const { return vf_i64s("right", 0); } i64 top() const { return vf_i64s("top", 0); } i64 bottom() const { return vf_i64s("bottom", 0); } };
struct HeaderBlock {
    HeaderBBox box; static std::string program; static vfp::Array<std::string>* features;
    bool ParseFromArray(const void* p, int n);
    int required_features_size() const;
    const std::string& required_features(int i) const;
    bool has_writingprogram() const { return vfp::flag("has program", 0); } const std::string& writingprogram() const { return program; }
    bool has_bbox() const { return vfp::flag("has bbox", 0); } const HeaderBBox& bbox() const { return box; }
};
struct BlobHeader {
    i32 size; std::string type_;
    bool ParseFromArray(const void* p, int n);
    const std::string& type() const { return type_; } i32 datasize() const { return size; }
};
struct Blob {
    std::string data;
    bool ParseFromArray(const void* p, int n);
    bool has_raw() const; bool has_zlib_data() const; bool has_lzma_data() const; i32 raw_size() const;
    const std::string& raw() const { return data; } const std::string& zlib_data() const { return data; }
};
}
#endif
