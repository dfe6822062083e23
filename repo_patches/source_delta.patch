From 6f261829443bd70d826559b5adf8dacee2241569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 01/23] fix: ignore undefined positions when extending Bounds

An undefined position has the reserved value INT32_MAX in its coordinates,
extending defined bounds with it moved the top right corner there.
---
 include/osmium/osm/bounds.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/osmium/osm/bounds.hpp b/include/osmium/osm/bounds.hpp
index da69a42..e66034c 100644
--- a/include/osmium/osm/bounds.hpp
+++ b/include/osmium/osm/bounds.hpp
@@ -37,7 +37,14 @@ namespace Osmium {
                 m_top_right() {
             }
 
+            /**
+             * Extend the bounds so that they include the given position.
+             * Undefined positions are ignored.
+             */
             Bounds& extend(const Position& position) {
+                if (!position.defined()) {
+                    return *this;
+                }
                 if (m_bottom_left.defined()) {
                     if (position.x() < m_bottom_left.x()) m_bottom_left.x(position.x());
                     if (position.x() > m_top_right.x()  ) m_top_right.x(position.x());
-- 
2.43.0


From b2118c4f83bdf13b9c8403c03b4625b16c666fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 02/23] fix: make the object orderings strict weak orders when
 ids differ only in sign

Objects with ids x and -x were neither smaller nor equal to each other
whatever their version, while versions of one id are ordered, so that
incomparability was not transitive.
---
 include/osmium/osm/area.hpp     | 2 ++
 include/osmium/osm/node.hpp     | 2 ++
 include/osmium/osm/relation.hpp | 2 ++
 include/osmium/osm/way.hpp      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index a5979f6..a8e0384 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -137,6 +137,8 @@ namespace Osmium {
         inline bool operator<(const Area& lhs, const Area& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/node.hpp b/include/osmium/osm/node.hpp
index f4dea1f..695d161 100644
--- a/include/osmium/osm/node.hpp
+++ b/include/osmium/osm/node.hpp
@@ -87,6 +87,8 @@ namespace Osmium {
         inline bool operator<(const Node& lhs, const Node& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/relation.hpp b/include/osmium/osm/relation.hpp
index e20dadf..74383e6 100644
--- a/include/osmium/osm/relation.hpp
+++ b/include/osmium/osm/relation.hpp
@@ -78,6 +78,8 @@ namespace Osmium {
         inline bool operator<(const Relation& lhs, const Relation& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/way.hpp b/include/osmium/osm/way.hpp
index 89562a9..fccea1d 100644
--- a/include/osmium/osm/way.hpp
+++ b/include/osmium/osm/way.hpp
@@ -113,6 +113,8 @@ namespace Osmium {
         inline bool operator<(const Way& lhs, const Way& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
-- 
2.43.0


From a070eea7c15b2d0be9a8ca06e22f0684dba033b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 03/23] fix: keep the old mapping of MmapAnon and MmapFile when
 growing fails

set() replaced (MmapAnon) or unmapped (MmapFile) the mapping before the new one
was known to exist. After the std::bad_alloc the store pointed to MAP_FAILED and
every later read crashed. Use the new mapping only once it has been made.
---
 include/osmium/storage/byid/mmap_anon.hpp | 6 ++++--
 include/osmium/storage/byid/mmap_file.hpp | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index 15979c0..0636cf2 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -80,10 +80,12 @@ namespace Osmium {
                     if (id >= m_size) {
                         uint64_t new_size = id + size_increment;
 
-                        m_items = static_cast<TValue*>(mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE));
-                        if (m_items == MAP_FAILED) {
+                        // keep the old mapping if it can't be enlarged
+                        void* new_items = mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE);
+                        if (new_items == MAP_FAILED) {
                             throw std::bad_alloc();
                         }
+                        m_items = static_cast<TValue*>(new_items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index fcd60a1..0618f25 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -116,13 +116,16 @@ namespace Osmium {
                             }
                         }
 
-                        if (munmap(m_items, sizeof(TValue) * m_size) < 0) {
+                        // keep the old mapping until the new one is known to work
+                        void* new_items = mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0);
+                        if (new_items == MAP_FAILED) {
                             throw std::bad_alloc();
                         }
-                        m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
-                        if (m_items == MAP_FAILED) {
+                        if (munmap(m_items, sizeof(TValue) * m_size) < 0) {
+                            munmap(new_items, sizeof(TValue) * new_size);
                             throw std::bad_alloc();
                         }
+                        m_items = static_cast<TValue*>(new_items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
-- 
2.43.0


From c9ab2533a76a3e27ab94518a0c378f32245b73b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 04/23] fix: leave no half-added member behind when a member
 role is too long

RelationMemberList::add_member() appended the new member before setting its
role. When the role was too long the exception left a member without role in
the list.
---
 include/osmium/osm/relation_member_list.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osm/relation_member_list.hpp b/include/osmium/osm/relation_member_list.hpp
index df8c2be..82161fd 100644
--- a/include/osmium/osm/relation_member_list.hpp
+++ b/include/osmium/osm/relation_member_list.hpp
@@ -82,7 +82,12 @@ namespace Osmium {
                 a second copy */
                 m->type(type);
                 m->ref(ref);
-                m->role(role);
+                try {
+                    m->role(role);
+                } catch (...) {
+                    m_list.pop_back();
+                    throw;
+                }
             }
 
         private:
-- 
2.43.0


From 3ad8057fcfc524456044b654b4127b8dce2f1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 05/23] fix: a file name without a dot has no suffix

The whole name was taken as the suffix, so a file called just "osm" or
"pbf" was treated as if it had that suffix.
---
 include/osmium/osmfile.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 316ff14..a985f84 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -454,7 +454,8 @@ namespace Osmium {
             } else {
                 ++n;
             }
-            std::string suffix(filename.substr(filename.find_first_of('.', n)+1));
+            size_t dot = filename.find_first_of('.', n);
+            std::string suffix(dot == std::string::npos ? "" : filename.substr(dot+1));
 
             set_type_and_encoding(suffix);
         }
-- 
2.43.0


From d162403409720ed1ddc27995e7d4f26063c7831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 06/23] fix: files called http or https are not URLs

Without a colon in the name the whole name was taken as the protocol.
---
 include/osmium/osmfile.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index a985f84..c6da3e3 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -408,8 +408,8 @@ namespace Osmium {
          * @throws IOError if the file can't be opened.
          */
         int open_input_file_or_url() {
-            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':'));
-            if (protocol == "http" || protocol == "https") {
+            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':') + 1);
+            if (protocol == "http:" || protocol == "https:") {
                 return execute("curl", 0);
             } else {
                 return open_input_file();
@@ -441,8 +441,8 @@ namespace Osmium {
             }
 
             // filename is actually a URL
-            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':'));
-            if (protocol == "http" || protocol == "https") {
+            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':') + 1);
+            if (protocol == "http:" || protocol == "https:") {
                 default_settings_for_url();
                 return;
             }
-- 
2.43.0


From 08322fda7bf20f68e2f1b885428f0a6932390396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 07/23] fix: keep directories with dots in
 filename_without_suffix()

The name was cut at the first dot of the path, not of the file name.
---
 include/osmium/osmfile.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index c6da3e3..cb29d27 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -650,7 +650,8 @@ namespace Osmium {
         }
 
         std::string filename_without_suffix() const {
-            return m_filename.substr(0, m_filename.find_first_of('.'));
+            size_t n = m_filename.find_last_of('/');
+            return m_filename.substr(0, m_filename.find_first_of('.', n == std::string::npos ? 0 : n));
         }
 
         std::string filename_with_default_suffix() const {
-- 
2.43.0


From f168a2c732a036c311a4e3a399bff86e82ea7419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 08/23] fix: wait for the helper process only once

When the helper ended with an error, close() threw but kept the process
id, so closing again (or the destructor) waited for a process that was
already gone, or for another one with the same id.
---
 include/osmium/osmfile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index cb29d27..c22279c 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -543,12 +543,12 @@ namespace Osmium {
             if (m_childpid) {
                 int status;
                 pid_t pid = waitpid(m_childpid, &status, 0);
+                m_childpid = 0;
                 if (pid < 0 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                     // global variable errno doesn't contain a valid value,
                     // so we better set errno=0
                     throw IOError("Subprocess returned error", m_filename, 0);
                 }
-                m_childpid = 0;
             }
         }
 
-- 
2.43.0


From f7baa8c3088150b531d5a57d4783ca0692d80477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 09/23] fix: close the open file when an OSMFile is assigned to

Its descriptor was leaked and its helper process was never waited for.
---
 include/osmium/osmfile.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index c22279c..d77580f 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -518,8 +518,7 @@ namespace Osmium {
          * copied.
          */
         OSMFile& operator=(const OSMFile& orig) {
-            m_fd       = -1;
-            m_childpid = 0;
+            close();
             m_type     = orig.type();
             m_encoding = orig.encoding();
             m_filename = orig.filename();
-- 
2.43.0


From a8b1cbc1e4853bcc5b49d987c6e49f661029e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 10/23] fix: close both ends of the pipe when fork fails

---
 include/osmium/osmfile.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index d77580f..6eab421 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -318,7 +318,10 @@ namespace Osmium {
             }
             pid_t pid = fork();
             if (pid < 0) {
-                throw SystemError("Can't fork", errno);
+                int fork_errno = errno;
+                ::close(pipefd[0]);
+                ::close(pipefd[1]);
+                throw SystemError("Can't fork", fork_errno);
             }
             if (pid == 0) { // child
                 // close all file descriptors except one end of the pipe
-- 
2.43.0


From 6b38b8b7767ca6f5a60b147c670a15771648a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 11/23] fix: call init before final on a handler when there are
 no objects in the input

---
 include/osmium/input.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/input.hpp b/include/osmium/input.hpp
index d444918..b707907 100644
--- a/include/osmium/input.hpp
+++ b/include/osmium/input.hpp
@@ -137,6 +137,9 @@ namespace Osmium {
                             break;
                     }
                     m_last_object_type = current_object_type;
+                } else if (current_object_type == UNKNOWN) {
+                    // there were no objects in the input
+                    m_handler.init(m_meta);
                 }
             }
 
-- 
2.43.0


From 79692199c8dc030eb2321c1e9c6ac6e4ddc89959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 12/23] fix: ignore elements nested inside child elements of an
 object in the XML reader

---
 include/osmium/input/xml.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 985acd7..dc91737 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -63,6 +63,7 @@ namespace Osmium {
                 m_current_object(NULL),
                 m_context(context_root),
                 m_last_context(context_root),
+                m_ignored_depth(0),
                 m_in_delete_section(false) {
             }
 
@@ -128,6 +129,12 @@ namespace Osmium {
             context_t m_context;
             context_t m_last_context;
 
+            /**
+             * Number of currently open elements nested inside a child element
+             * of an object. They are ignored.
+             */
+            unsigned long m_ignored_depth;
+
             /**
              * This is used only for change files which contain create, modify,
              * and delete sections.
@@ -269,7 +276,8 @@ namespace Osmium {
                         }
                         break;
                     case context_in_object:
-                        // fallthrough
+                        ++m_ignored_depth;
+                        break;
                     default:
                         assert(false); // should never be here
                 }
@@ -303,7 +311,11 @@ namespace Osmium {
                         m_context = context_top;
                         break;
                     case context_in_object:
-                        m_context = m_last_context;
+                        if (m_ignored_depth > 0) {
+                            --m_ignored_depth;
+                        } else {
+                            m_context = m_last_context;
+                        }
                         break;
                     default:
                         assert(false); // should never be here
-- 
2.43.0


From 7c7c5fae2b2d1ba81b475b44087dfaa36072d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 13/23] fix: XML reader set lon and lat of a way or relation on
 the last node

---
 include/osmium/input/xml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index dc91737..376ebab 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -156,11 +156,11 @@ namespace Osmium {
                 m_current_object = &obj;
                 for (int count = 0; attrs[count]; count += 2) {
                     if (!strcmp(attrs[count], "lon")) {
-                        if (this->m_node) {
+                        if (obj.type() == NODE) {
                             this->m_node->lon(atof(attrs[count+1]));
                         }
                     } else if (!strcmp(attrs[count], "lat")) {
-                        if (this->m_node) {
+                        if (obj.type() == NODE) {
                             this->m_node->lat(atof(attrs[count+1]));
                         }
                     } else {
-- 
2.43.0


From 9598bec94d767c1cdc5fa0ab30c0bc835a5e03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 14/23] fix: PBF reader keeps timestamps with date granularity
 below 1000 ms

---
 include/osmium/input/pbf.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index d987e6c..365e2b6 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -58,7 +58,7 @@ namespace Osmium {
             OSMPBF::BlobHeader     m_pbf_blob_header;
             OSMPBF::PrimitiveBlock m_pbf_primitive_block;
 
-            int64_t m_date_factor;
+            int64_t m_date_granularity;
 
         public:
 
@@ -75,7 +75,7 @@ namespace Osmium {
                 m_pbf_blob(),
                 m_pbf_blob_header(),
                 m_pbf_primitive_block(),
-                m_date_factor() {
+                m_date_granularity() {
                 GOOGLE_PROTOBUF_VERIFY_VERSION;
             }
 
@@ -95,7 +95,7 @@ namespace Osmium {
                                 throw std::runtime_error("Failed to parse PrimitiveBlock.");
                             }
                             const OSMPBF::StringTable& stringtable = m_pbf_primitive_block.stringtable();
-                            m_date_factor = m_pbf_primitive_block.date_granularity() / 1000;
+                            m_date_granularity = m_pbf_primitive_block.date_granularity();
                             for (int i=0; i < m_pbf_primitive_block.primitivegroup_size(); ++i) {
                                 parse_group(m_pbf_primitive_block.primitivegroup(i), stringtable);
                             }
@@ -195,7 +195,7 @@ namespace Osmium {
                     if (pbf_node.has_info()) {
                         node.version(pbf_node.info().version())
                         .changeset(pbf_node.info().changeset())
-                        .timestamp(pbf_node.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
                         .user(stringtable.s(pbf_node.info().user_sid()).data());
                         if (pbf_node.info().has_visible()) {
@@ -233,7 +233,7 @@ namespace Osmium {
                     if (pbf_way.has_info()) {
                         way.version(pbf_way.info().version())
                         .changeset(pbf_way.info().changeset())
-                        .timestamp(pbf_way.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
                         .user(stringtable.s(pbf_way.info().user_sid()).data());
                         if (pbf_way.info().has_visible()) {
@@ -274,7 +274,7 @@ namespace Osmium {
                     if (pbf_relation.has_info()) {
                         relation.version(pbf_relation.info().version())
                         .changeset(pbf_relation.info().changeset())
-                        .timestamp(pbf_relation.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
                         .user(stringtable.s(pbf_relation.info().user_sid()).data());
                         if (pbf_relation.info().has_visible()) {
@@ -342,7 +342,7 @@ namespace Osmium {
 
                         node.version(dense.denseinfo().version(entity));
                         node.changeset(last_dense_changeset);
-                        node.timestamp(last_dense_timestamp * m_date_factor);
+                        node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
                         node.uid(last_dense_uid);
                         node.user(stringtable.s(last_dense_user_sid).data());
 
-- 
2.43.0


From cdf08d0897aaeaf2961910d2a5132699ae20d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 15/23] fix: PBF reader reports a file that ends inside the
 length of a blob header

---
 include/osmium/input/pbf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 365e2b6..4c35531 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -396,6 +396,9 @@ namespace Osmium {
                     if (nread < 0) {
                         throw std::runtime_error("read error");
                     } else if (nread == 0) {
+                        if (offset != 0) {
+                            throw std::runtime_error("unexpected end of file");
+                        }
                         return false; // EOF
                     }
                     offset += nread;
-- 
2.43.0


From 13dcf8409556ff328b721b7eb8a5732825348a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 16/23] fix: PBF reader refuses an impossible uncompressed blob
 size instead of asserting

---
 include/osmium/input/pbf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 4c35531..637c1d4 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -450,8 +450,10 @@ namespace Osmium {
                 if (m_pbf_blob.has_raw()) {
                     return array_t(m_pbf_blob.raw().data(), m_pbf_blob.raw().size());
                 } else if (m_pbf_blob.has_zlib_data()) {
+                    if (m_pbf_blob.raw_size() < 0 || m_pbf_blob.raw_size() > OSMPBF::max_uncompressed_blob_size) {
+                        throw std::runtime_error("invalid uncompressed blob size");
+                    }
                     unsigned long raw_size = m_pbf_blob.raw_size();
-                    assert(raw_size <= static_cast<unsigned long>(OSMPBF::max_uncompressed_blob_size));
                     if (uncompress(m_unpack_buffer, &raw_size, reinterpret_cast<const unsigned char*>(m_pbf_blob.zlib_data().data()), m_pbf_blob.zlib_data().size()) != Z_OK || m_pbf_blob.raw_size() != static_cast<long>(raw_size)) {
                         throw std::runtime_error("zlib error");
                     }
-- 
2.43.0


From ab9ddcf35275fa51a0a4c8803bc02b54498a8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 17/23] fix: XML writer writes versions above 2^31-1 as the
 unsigned numbers they are

---
 include/osmium/output/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 48632d3..521b5e6 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -171,7 +171,7 @@ namespace Osmium {
             void write_meta(const shared_ptr<Osmium::OSM::Object const>& object) {
                 check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "id", "%" PRId64, object->id()));
                 if (object->version()) {
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "version", "%d", object->version()));
+                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "version", "%u", object->version()));
                 }
                 if (object->timestamp()) {
                     check_for_error(xmlTextWriterWriteAttribute(m_xml_writer, BAD_CAST "timestamp", BAD_CAST object->timestamp_as_string().c_str()));
-- 
2.43.0


From f9fad0ce36f8ae2f744a16027978c8df28e7045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 18/23] fix: PBF writer: write all of a frame when write()
 takes only part of it

---
 include/osmium/output/pbf.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 9162f24..9e552e1 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -346,14 +346,22 @@ namespace Osmium {
                 uint32_t sz = htonl(blobhead.size());
 
                 // write to the file: the 4-byte BlobHeader-Size followed by the BlobHeader followed by the Blob
-                if (::write(fd(), &sz, sizeof(sz)) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), blobhead.c_str(), blobhead.size()) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), data.c_str(), data.size()) < 0) {
-                    throw std::runtime_error("file error");
+                write_fully(reinterpret_cast<const char*>(&sz), sizeof(sz));
+                write_fully(blobhead.c_str(), blobhead.size());
+                write_fully(data.c_str(), data.size());
+            }
+
+            /**
+             * write all of the given bytes to the file, in as many calls to write(2) as it takes
+             */
+            void write_fully(const char* data, size_t size) {
+                size_t offset = 0;
+                while (offset < size) {
+                    const ssize_t length = ::write(fd(), data + offset, size - offset);
+                    if (length < 0) {
+                        throw std::runtime_error("file error");
+                    }
+                    offset += length;
                 }
             }
 
-- 
2.43.0


From d981cbcf952340a280c9b5c11521a5b84392c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:18 +0000
Subject: [PATCH 19/23] fix: PBF string ids wrapped after 65535 strings in a
 block

---
 include/osmium/output/pbf.hpp        | 4 ++--
 include/osmium/utils/stringtable.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 9e552e1..7673871 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -390,7 +390,7 @@ namespace Osmium {
                         // is always unused). String-ids of 0 are thus kept alone.
                         for (int i=0, l=dense->keys_vals_size(); i<l; i++) {
                             // map interim string-ids > 0 to real string ids
-                            uint16_t sid = dense->keys_vals(i);
+                            uint32_t sid = dense->keys_vals(i);
                             if (sid > 0) {
                                 dense->set_keys_vals(i, string_table.map_string_id(sid));
                             }
@@ -404,7 +404,7 @@ namespace Osmium {
                             // iterate over all username string-ids
                             for (int i=0, l= denseinfo->user_sid_size(); i<l; i++) {
                                 // map interim string-ids > 0 to real string ids
-                                uint16_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
+                                uint32_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
 
                                 // delta encode the string-id
                                 denseinfo->set_user_sid(i, m_delta_user_sid.update(user_sid));
diff --git a/include/osmium/utils/stringtable.hpp b/include/osmium/utils/stringtable.hpp
index 69063bd..6e68028 100644
--- a/include/osmium/utils/stringtable.hpp
+++ b/include/osmium/utils/stringtable.hpp
@@ -54,7 +54,7 @@ namespace Osmium {
     class StringTable {
 
         /// type for string IDs (interim and final)
-        typedef uint16_t string_id_t;
+        typedef uint32_t string_id_t;
 
         /**
          * this is the struct used to build the StringTable. It is stored as
-- 
2.43.0


From af740e21285e559e7fa172fda9d23769a89fd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:32 +0000
Subject: [PATCH 20/23] fix: ObjectStore::ApplyHandler lost stored objects of
 kinds the stream has none of

---
 include/osmium/storage/objectstore.hpp | 43 ++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/include/osmium/storage/objectstore.hpp b/include/osmium/storage/objectstore.hpp
index 628d23b..7eb085f 100644
--- a/include/osmium/storage/objectstore.hpp
+++ b/include/osmium/storage/objectstore.hpp
@@ -235,8 +235,51 @@ namespace Osmium {
                     m_object_store.clear_relations();
                 }
 
+                // If there are no objects of some kind in the stream, the
+                // before/after methods for that kind might not be called.
+                // Objects left in the store are delivered before going on.
+
+                void before_ways() {
+                    remaining_nodes();
+                    m_handler.before_ways();
+                }
+
+                void before_relations() {
+                    remaining_nodes();
+                    remaining_ways();
+                    m_handler.before_relations();
+                }
+
+                void final() {
+                    remaining_nodes();
+                    remaining_ways();
+                    remaining_relations();
+                    m_handler.final();
+                }
+
             private:
 
+                void remaining_nodes() {
+                    if (m_nodes_iter != m_nodes_end) {
+                        m_handler.before_nodes();
+                        after_nodes();
+                    }
+                }
+
+                void remaining_ways() {
+                    if (m_ways_iter != m_ways_end) {
+                        m_handler.before_ways();
+                        after_ways();
+                    }
+                }
+
+                void remaining_relations() {
+                    if (m_relations_iter != m_relations_end) {
+                        m_handler.before_relations();
+                        after_relations();
+                    }
+                }
+
                 ObjectStore& m_object_store;
                 THandler& m_handler;
                 Osmium::OSM::Meta& m_meta;
-- 
2.43.0


From 0ff1fd286569d87643e4219f853b1c2e64fcbe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 21/23] fix: polygons ignored the reverse flag in their WKT and
 WKB

---
 include/osmium/geometry/polygon.hpp | 32 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/osmium/geometry/polygon.hpp b/include/osmium/geometry/polygon.hpp
index 5128c0d..7648699 100644
--- a/include/osmium/geometry/polygon.hpp
+++ b/include/osmium/geometry/polygon.hpp
@@ -67,7 +67,11 @@ namespace Osmium {
                 }
                 LonLatListWriter<Osmium::OSM::WayNode> writer(out);
                 out << "POLYGON((" << std::setprecision(10);
-                for_each(nodes().begin(), nodes().end(), writer);
+                if (reverse()) {
+                    for_each(nodes().rbegin(), nodes().rend(), writer);
+                } else {
+                    for_each(nodes().begin(), nodes().end(), writer);
+                }
                 return out << "))";
             }
 
@@ -75,9 +79,16 @@ namespace Osmium {
                 write_binary_wkb_header(out, with_srid, wkbPolygon);
                 write_binary<uint32_t>(out, 1); // ring count
                 write_binary<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_binary<double>(out, it->lon());
-                    write_binary<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
@@ -86,9 +97,16 @@ namespace Osmium {
                 write_hex_wkb_header(out, with_srid, wkbPolygon);
                 write_hex<uint32_t>(out, 1); // ring count
                 write_hex<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_hex<double>(out, it->lon());
-                    write_hex<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
-- 
2.43.0


From 18fa6c9733c23c3aee0c13ba815e76663db0742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:14 +0000
Subject: [PATCH 22/23] fix: asking an empty way node list whether it is closed
 looked at nodes that are not there

---
 include/osmium/osm/way_node_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/osm/way_node_list.hpp b/include/osmium/osm/way_node_list.hpp
index 3d79e74..b88566b 100644
--- a/include/osmium/osm/way_node_list.hpp
+++ b/include/osmium/osm/way_node_list.hpp
@@ -125,7 +125,7 @@ namespace Osmium {
             }
 
             bool is_closed() const {
-                return m_list.front().ref() == m_list.back().ref();
+                return !m_list.empty() && m_list.front().ref() == m_list.back().ref();
             }
 
             bool has_position() const {
-- 
2.43.0


From 6097a3f866c456fa2ace3eba72fb7622a434090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:22 +0000
Subject: [PATCH 23/23] fix: copying an area without a geometry no longer
 dereferences a null pointer, assignment frees the old geometry

---
 include/osmium/osm/area.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index a8e0384..c9ab717 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -86,7 +86,7 @@ namespace Osmium {
             Area(const Area& area) :
                 Object(area),
                 m_node_list(area.m_node_list),
-                m_geos_geometry(dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone())) {
+                m_geos_geometry(area.m_geos_geometry ? dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone()) : NULL) {
             }
 
             Area& operator=(const Area& area) {
@@ -100,7 +100,9 @@ namespace Osmium {
                 visible(area.visible());
                 tags(area.tags());
                 m_node_list = area.m_node_list;
-                m_geos_geometry = dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone());
+                geos::geom::MultiPolygon* geos_geometry = area.m_geos_geometry ? dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone()) : NULL;
+                delete m_geos_geometry;
+                m_geos_geometry = geos_geometry;
                 return *this;
             }
 
-- 
2.43.0

