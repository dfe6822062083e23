// The messages of OSM PBF as the writer sees them: what is put into a message goes to the specification, column by column
// and value by value; what is asked of a message is answered by the specification.
#ifndef VF_OSMPBF_W_H
#define VF_OSMPBF_W_H
#include <string>
#include <vf.hpp>
#define GOOGLE_PROTOBUF_VERIFY_VERSION
namespace vfw {
enum { id, lat, lon, keys, vals, version, timestamp, changeset, uid, user_sid, visible, refs, roles, memids, types,
       d_id, d_lat, d_lon, d_kv, d_version, d_timestamp, d_changeset, d_uid, d_user_sid, d_visible, columns };
enum { m_header, m_block, m_blob, m_blob_header };
void put(int column, i64 v);                  // appended, or set if it is a single value
void put_at(int column, int i, i64 v);        // an entry is replaced
i64 get(int column, int i); int size(int column);
void begin(int kind, int i);                  // an object is added (i < 0) or looked at; kind: 0 dense, 1 node, 2 way, 3 relation
void info(); bool has_info();
void group(int slot, int kind); int objects(int slot, int kind); int new_group();
int bytes(); void cleared(int message); bool serialized(int message, std::string*);
void text(int what, const std::string&); void number(int what, i64 v);
enum { t_raw, t_zlib, t_type, t_feature, t_optional_feature, t_program, n_raw_size, n_datasize, n_granularity, n_date_granularity, n_left, n_right, n_top, n_bottom, n_lat_offset, n_lon_offset };
void zlib(const char*, u64 n); void entry(const std::string&); void bbox();
}
namespace google { namespace protobuf {
class MessageLite { public: int vf_message; explicit MessageLite(int m) : vf_message(m) {} bool SerializeToString(std::string* s) const { return vfw::serialized(vf_message, s); } void Clear() { vfw::cleared(vf_message); } int ByteSize() const { return vfw::bytes(); } };
} }
namespace OSMPBF {
#ifdef VF_NATIVE
enum { max_uncompressed_blob_size = 64 * 1024 };       // (the size of a buffer; small to be fast)
#else
enum { max_uncompressed_blob_size = 32 * 1024 * 1024 };
#endif
enum { max_blob_header_size = 64 * 1024, lonlat_resolution = 1000 * 1000 * 1000 };
class Info {
public:
    void set_version(i32 v) { vfw::put(vfw::version, v); } void set_timestamp(i64 v) { vfw::put(vfw::timestamp, v); } void set_changeset(i64 v) { vfw::put(vfw::changeset, v); }
    void set_uid(i32 v) { vfw::put(vfw::uid, v); } void set_user_sid(u32 v) { vfw::put(vfw::user_sid, (i64)v); } void set_visible(bool v) { vfw::put(vfw::visible, v); }
    u32 user_sid() const { return (u32)vfw::get(vfw::user_sid, 0); }
};
class Object {
    Info i;
public:
    void set_id(i64 v) { vfw::put(vfw::id, v); }
    void add_keys(u32 v) { vfw::put(vfw::keys, (i64)v); } void add_vals(u32 v) { vfw::put(vfw::vals, (i64)v); }
    int keys_size() const { return vfw::size(vfw::keys); } int vals_size() const { return vfw::size(vfw::vals); }
    u32 keys(int k) const { return (u32)vfw::get(vfw::keys, k); } u32 vals(int k) const { return (u32)vfw::get(vfw::vals, k); }
    void set_keys(int k, u32 v) { vfw::put_at(vfw::keys, k, (i64)v); } void set_vals(int k, u32 v) { vfw::put_at(vfw::vals, k, (i64)v); }
    bool has_info() const { return vfw::has_info(); } Info* mutable_info() { vfw::info(); return &i; } const Info& info() const { return i; }
    int ByteSize() const { return vfw::bytes(); }
};
class Node : public Object { public: void set_lat(i64 v) { vfw::put(vfw::lat, v); } void set_lon(i64 v) { vfw::put(vfw::lon, v); } };
class Way : public Object { public: void add_refs(i64 v) { vfw::put(vfw::refs, v); } int refs_size() const { return vfw::size(vfw::refs); } };
class Relation : public Object {
public:
    enum MemberType { NODE = 0, WAY = 1, RELATION = 2 };
    void add_roles_sid(i32 v) { vfw::put(vfw::roles, v); } void add_memids(i64 v) { vfw::put(vfw::memids, v); } void add_types(MemberType t) { vfw::put(vfw::types, t); }
    int roles_sid_size() const { return vfw::size(vfw::roles); } i32 roles_sid(int k) const { return (i32)vfw::get(vfw::roles, k); } void set_roles_sid(int k, i32 v) { vfw::put_at(vfw::roles, k, v); }
    int memids_size() const { return vfw::size(vfw::memids); }
};
class DenseInfo {
public:
    void add_version(i32 v) { vfw::put(vfw::d_version, v); } void add_timestamp(i64 v) { vfw::put(vfw::d_timestamp, v); } void add_changeset(i64 v) { vfw::put(vfw::d_changeset, v); }
    void add_uid(i32 v) { vfw::put(vfw::d_uid, v); } void add_user_sid(i32 v) { vfw::put(vfw::d_user_sid, v); } void add_visible(bool v) { vfw::put(vfw::d_visible, v); }
    int user_sid_size() const { return vfw::size(vfw::d_user_sid); } i32 user_sid(int k) const { return (i32)vfw::get(vfw::d_user_sid, k); } void set_user_sid(int k, i32 v) { vfw::put_at(vfw::d_user_sid, k, v); }
};
class DenseNodes {
    DenseInfo i;
public:
    void add_id(i64 v) { vfw::put(vfw::d_id, v); } void add_lat(i64 v) { vfw::put(vfw::d_lat, v); } void add_lon(i64 v) { vfw::put(vfw::d_lon, v); } void add_keys_vals(i32 v) { vfw::put(vfw::d_kv, v); }
    int keys_vals_size() const { return vfw::size(vfw::d_kv); } i32 keys_vals(int k) const { return (i32)vfw::get(vfw::d_kv, k); } void set_keys_vals(int k, i32 v) { vfw::put_at(vfw::d_kv, k, v); }
    int id_size() const { return vfw::size(vfw::d_id); }
    bool has_denseinfo() const { return vfw::has_info(); } DenseInfo* mutable_denseinfo() { vfw::info(); return &i; }
};
class PrimitiveGroup {
    Node n; Way w; Relation r; DenseNodes d;
public:
    int slot;
    Node* add_nodes() { vfw::group(slot, 1); vfw::begin(1, -1); return &n; } Way* add_ways() { vfw::group(slot, 2); vfw::begin(2, -1); return &w; } Relation* add_relations() { vfw::group(slot, 3); vfw::begin(3, -1); return &r; }
    int nodes_size() const { return vfw::objects(slot, 1); } int ways_size() const { return vfw::objects(slot, 2); } int relations_size() const { return vfw::objects(slot, 3); }
    Node* mutable_nodes(int i) { vfw::group(slot, 1); vfw::begin(1, i); return &n; } Way* mutable_ways(int i) { vfw::group(slot, 2); vfw::begin(2, i); return &w; } Relation* mutable_relations(int i) { vfw::group(slot, 3); vfw::begin(3, i); return &r; }
    bool has_dense() const { return vfw::objects(slot, 0) != 0; } DenseNodes* mutable_dense() { vfw::group(slot, 0); vfw::begin(0, -1); return &d; }
};
class StringTable { public: void add_s(const std::string& s) { vfw::entry(s); } void add_s(const char* s) { vfw::entry(s); } };
class PrimitiveBlock : public google::protobuf::MessageLite {
    StringTable t; PrimitiveGroup groups[4];
public:
    PrimitiveBlock() : MessageLite(vfw::m_block) { for (int i = 0; i < 4; ++i) groups[i].slot = i; }
    int granularity() const { return 100; } int date_granularity() const { return 1000; }
    void set_granularity(i32 v) { vfw::number(vfw::n_granularity, v); } void set_date_granularity(i32 v) { vfw::number(vfw::n_date_granularity, v); }
    void set_lat_offset(i64 v) { vfw::number(vfw::n_lat_offset, v); } void set_lon_offset(i64 v) { vfw::number(vfw::n_lon_offset, v); }
    StringTable* mutable_stringtable() { return &t; }
    PrimitiveGroup* add_primitivegroup() { return &groups[vfw::new_group()]; }
};
class HeaderBBox { public: void set_left(i64 v) { vfw::number(vfw::n_left, v); } void set_right(i64 v) { vfw::number(vfw::n_right, v); } void set_top(i64 v) { vfw::number(vfw::n_top, v); } void set_bottom(i64 v) { vfw::number(vfw::n_bottom, v); } };
class HeaderBlock : public google::protobuf::MessageLite {
    HeaderBBox b;
public:
    HeaderBlock() : MessageLite(vfw::m_header) {}
    void add_required_features(const std::string& s) { vfw::text(vfw::t_feature, s); } void add_optional_features(const std::string& s) { vfw::text(vfw::t_optional_feature, s); } void set_writingprogram(const std::string& s) { vfw::text(vfw::t_program, s); }
    HeaderBBox* mutable_bbox() { vfw::bbox(); return &b; }
};
class Blob : public google::protobuf::MessageLite {
public:
    Blob() : MessageLite(vfw::m_blob) {}
    void set_raw(const std::string& s) { vfw::text(vfw::t_raw, s); } void set_zlib_data(const char* p, u64 n) { vfw::zlib(p, n); } void set_zlib_data(const void* p, u64 n) { vfw::zlib((const char*)p, n); }
    void set_raw_size(i32 v) { vfw::number(vfw::n_raw_size, v); }
};
class BlobHeader : public google::protobuf::MessageLite {
public:
    BlobHeader() : MessageLite(vfw::m_blob_header) {}
    void set_type(const std::string& s) { vfw::text(vfw::t_type, s); } void set_datasize(i32 v) { vfw::number(vfw::n_datasize, v); }
};
}
#endif
