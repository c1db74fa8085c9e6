From 4c3316df70b2c2680ce08d37f90a36005982294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 01/20] fix: write ASCII floating-point numbers with round-trip
 precision

save_msh used the stream's default precision of 6 digits, so every ASCII file
silently rounded coordinates and data.
---
 src/save_msh.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 8f90b88..03ab53b 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -12,11 +12,42 @@
 
 #include <cassert>
 #include <fstream>
+#include <ios>
+#include <limits>
 
 namespace mshio {
 
+namespace {
+
+// Makes ASCII numbers lossless, whatever the caller's stream is set to, and
+// restores the caller's settings afterwards.
+class LosslessFormat
+{
+public:
+    explicit LosslessFormat(std::ostream& out)
+        : m_out(out)
+        , m_flags(out.flags(std::ios_base::dec | std::ios_base::skipws))
+        , m_precision(out.precision(std::numeric_limits<double>::max_digits10))
+    {}
+    ~LosslessFormat()
+    {
+        m_out.flags(m_flags);
+        m_out.precision(m_precision);
+    }
+    LosslessFormat(const LosslessFormat&) = delete;
+    LosslessFormat& operator=(const LosslessFormat&) = delete;
+
+private:
+    std::ostream& m_out;
+    std::ios_base::fmtflags m_flags;
+    std::streamsize m_precision;
+};
+
+} // namespace
+
 void save_msh(std::ostream& out, const MshSpec& spec)
 {
+    const LosslessFormat lossless_format(out);
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
         save_physical_groups(out, spec);
-- 
2.43.0


From e63c4012db19c3910ee4d96e8bbec54a82cc5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 02/20] fix: report output files that could not be written
 completely

A full disk or a failing device went unnoticed: save_msh returned normally.
---
 src/save_msh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 03ab53b..ed453d9 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -88,6 +88,10 @@ void save_msh(const std::string& filename, const MshSpec& spec)
         throw std::runtime_error("Unable to open output file to write!");
     }
     save_msh(fout, spec);
+    fout.close();
+    if (!fout) {
+        throw std::runtime_error("Failed to write output file!");
+    }
 }
 
 } // namespace mshio
-- 
2.43.0


From f28bc9d9bccdcb442a7f581ba8cc1b17ab416b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 03/20] fix: refuse to save unsupported versions and element
 types

A description without nodes and elements was saved with any version string,
and 4.1 binary files accepted any element type; load_msh rejects both.
---
 src/save_msh_elements.cpp | 1 +
 src/save_msh_format.cpp   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index af91257..888a111 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -53,6 +53,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
 
+        assert_element_is_supported(block.element_type);
         out.write(reinterpret_cast<const char*>(&block.entity_dim), sizeof(int));
         out.write(reinterpret_cast<const char*>(&block.entity_tag), sizeof(int));
         out.write(reinterpret_cast<const char*>(&block.element_type), sizeof(int));
diff --git a/src/save_msh_format.cpp b/src/save_msh_format.cpp
index e4785c3..f11b9d2 100644
--- a/src/save_msh_format.cpp
+++ b/src/save_msh_format.cpp
@@ -1,6 +1,7 @@
 #include "save_msh_format.h"
 
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include <ostream>
 
@@ -9,6 +10,9 @@ namespace mshio {
 void save_mesh_format(std::ostream& out, const MshSpec& spec)
 {
     const MeshFormat& format = spec.mesh_format;
+    if (format.version != "2.2" && format.version != "4.1") {
+        throw UnsupportedFeature("Unsupported MSH version: " + format.version);
+    }
     out << "$MeshFormat" << std::endl;
     out << format.version << " " << format.file_type << " " << format.data_size << std::endl;
     if (format.file_type == 1) {
-- 
2.43.0


From 67df6d1695eb25df200b87aac4329d9f8799a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 04/20] fix: refuse tags that do not fit the 32-bit fields of
 binary files

MSH 2.2 binary nodes and elements, and binary data entries, silently kept only
the low 32 bits of a tag.
---
 src/io_utils.cpp          | 11 +++++++++++
 src/io_utils.h            |  5 +++++
 src/save_msh_data.cpp     |  5 +++--
 src/save_msh_elements.cpp |  4 ++--
 src/save_msh_nodes.cpp    |  3 ++-
 5 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 56ef54a..351ceeb 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -1,6 +1,9 @@
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
 #include <istream>
+#include <string>
 
 namespace mshio {
 
@@ -18,5 +21,13 @@ void eat_white_space(std::istream& in, size_t count)
     }
 }
 
+int32_t to_int32_tag(size_t tag)
+{
+    if (tag > static_cast<size_t>(std::numeric_limits<int32_t>::max())) {
+        throw UnsupportedFeature("Tag " + std::to_string(tag) + " does not fit into 32 bits.");
+    }
+    return static_cast<int32_t>(tag);
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index a8255cb..3ea698c 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cstddef>
+#include <cstdint>
 #include <istream>
 #include <limits>
 
@@ -7,5 +9,8 @@ namespace mshio {
 
 void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t>::max());
 
+// Converts a tag for a 32-bit field; throws UnsupportedFeature if it does not fit.
+int32_t to_int32_tag(size_t tag);
+
 } // namespace mshio
 
diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index eb35260..d403449 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -1,4 +1,5 @@
 #include "save_msh_data.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
@@ -41,7 +42,7 @@ void save_data(std::ostream& out,
                 // Based on trial and error, it seems Gmsh 4.7.1 still expect 32
                 // bits tag, which is inconsistent with their spec.  Maybe
                 // report a bug?
-                tag = static_cast<int32_t>(entry.tag);
+                tag = to_int32_tag(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 // out.write(reinterpret_cast<const char*>(&entry.tag), sizeof(size_t));
                 if (is_element_node_data) {
@@ -54,7 +55,7 @@ void save_data(std::ostream& out,
         } else if (version == "2.2") {
             int32_t tag, num_nodes_per_element;
             for (const DataEntry& entry : data.entries) {
-                tag = static_cast<int32_t>(entry.tag);
+                tag = to_int32_tag(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 if (is_element_node_data) {
                     num_nodes_per_element = static_cast<int32_t>(entry.num_nodes_per_element);
diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index 888a111..21b2737 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -111,11 +111,11 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
         const int32_t tag = static_cast<int32_t>(block.entity_tag);
 
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
-            const int32_t element_number = static_cast<int32_t>(block.data[j * (n + 1)]);
+            const int32_t element_number = to_int32_tag(block.data[j * (n + 1)]);
             out.write(reinterpret_cast<const char*>(&element_number), 4);
             out.write(reinterpret_cast<const char*>(&tag), 4);
             for (size_t k = 0; k < n; k++) {
-                const int32_t node_id = static_cast<int32_t>(block.data[j * (n + 1) + k + 1]);
+                const int32_t node_id = to_int32_tag(block.data[j * (n + 1) + k + 1]);
                 out.write(reinterpret_cast<const char*>(&node_id), 4);
             }
         }
diff --git a/src/save_msh_nodes.cpp b/src/save_msh_nodes.cpp
index f08fbca..23b9980 100644
--- a/src/save_msh_nodes.cpp
+++ b/src/save_msh_nodes.cpp
@@ -1,4 +1,5 @@
 #include "save_msh_nodes.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
@@ -95,7 +96,7 @@ void save_nodes_binary(std::ostream& out, const MshSpec& spec)
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
-            const int32_t node_id = static_cast<int32_t>(block.tags[j]);
+            const int32_t node_id = to_int32_tag(block.tags[j]);
             out.write(reinterpret_cast<const char*>(&node_id), 4);
             out.write(reinterpret_cast<const char*>(block.data.data() + j * entries_per_node),
                 static_cast<std::streamsize>(sizeof(double) * 3));
-- 
2.43.0


From b142536c3c9f57149e4b7b3862ee749404d5de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 05/20] fix: read MSH 2.2 ASCII element and node tags at full
 width

Node tags were read as size_t but element tags and connectivity as int, so a
saved file with tags beyond 2^31 could not be loaded back.
---
 src/load_msh_elements.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 9ec3bc6..662e410 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -105,10 +105,11 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     elements.num_entity_blocks += num_elements;
     elements.num_elements += num_elements;
 
-    int element_num, element_type;
+    size_t element_num;
+    int element_type;
     int num_tags;
     std::vector<int> tags;
-    std::vector<int> node_ids;
+    std::vector<size_t> node_ids;
 
     std::array<std::map<int, std::set<int>>, 4> entity_tag_to_physical_tags;
 
@@ -128,9 +129,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         }
 
         elements.min_element_tag =
-            std::min(elements.min_element_tag, static_cast<size_t>(element_num));
+            std::min(elements.min_element_tag, element_num);
         elements.max_element_tag =
-            std::max(elements.max_element_tag, static_cast<size_t>(element_num));
+            std::max(elements.max_element_tag, element_num);
 
         elements.entity_blocks.emplace_back();
         auto& block = elements.entity_blocks.back();
@@ -157,9 +158,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         block.element_type = element_type;
         block.data.resize(n + 1);
 
-        block.data[0] = static_cast<size_t>(element_num);
+        block.data[0] = element_num;
         for (size_t j = 0; j < n; j++) {
-            block.data[j + 1] = static_cast<size_t>(node_ids[j]);
+            block.data[j + 1] = node_ids[j];
         }
     }
 
-- 
2.43.0


From d5e4ed259c94accdaadcefe208e1b81c28cc94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 06/20] fix: regroup MSH 2.2 nodes without indexing by tag
 range

An element referring to a node outside the range of node tags wrote out of
bounds, and sparse tags allocated memory for the whole tag range.
---
 src/load_msh_post_process.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 77d9dc3..a84b4ea 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -5,6 +5,7 @@
 
 #include <cassert>
 #include <limits>
+#include <unordered_map>
 
 namespace mshio {
 namespace v22 {
@@ -14,19 +15,22 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     auto& nodes = spec.nodes;
     auto& elements = spec.elements;
 
-    std::vector<size_t> entity_dims(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    std::vector<size_t> entity_tags(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    auto node_index = [&](size_t node_tag) {
-        return static_cast<size_t>(node_tag - nodes.min_node_tag);
+    // Node tags may be sparse, and elements may refer to nodes that are missing.
+    struct EntityId
+    {
+        size_t dim = 0;
+        size_t tag = 0;
     };
+    std::unordered_map<size_t, EntityId> node_entities;
+    node_entities.reserve(nodes.num_nodes);
 
     for (const auto& block : elements.entity_blocks) {
         const auto n = nodes_per_element(block.element_type);
         for (size_t i = 0; i < block.num_elements_in_block; i++) {
             for (size_t j = 0; j < n; j++) {
-                size_t idx = node_index(block.data[i * (n + 1) + j + 1]);
-                entity_dims[idx] = block.entity_dim;
-                entity_tags[idx] = block.entity_tag;
+                EntityId& entity = node_entities[block.data[i * (n + 1) + j + 1]];
+                entity.dim = block.entity_dim;
+                entity.tag = block.entity_tag;
             }
         }
     }
@@ -38,9 +42,9 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     size_t curr_dim = INVALID, curr_tag = INVALID;
     for (auto& block : nodes.entity_blocks) {
         for (size_t i = 0; i < block.num_nodes_in_block; i++) {
-            size_t idx = node_index(block.tags[i]);
-            size_t dim = entity_dims[idx];
-            size_t tag = entity_tags[idx];
+            const EntityId& entity = node_entities[block.tags[i]];
+            size_t dim = entity.dim;
+            size_t tag = entity.tag;
 
             if (dim != curr_dim || tag != curr_tag) {
                 node_blocks.emplace_back();
-- 
2.43.0


From 21328f6d3d7bd891a33e610f9934f2ba02459820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 07/20] fix: give empty MSH 2.2 node and element sections a
 valid tag range

They loaded with a minimum tag above the maximum, which validate_spec rejects.
---
 src/load_msh_post_process.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index a84b4ea..58bd8fb 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -109,6 +109,15 @@ void regroup_elements_into_blocks(MshSpec& spec)
 void load_msh_post_process(MshSpec& spec)
 {
     if (spec.mesh_format.version == "2.2") {
+        // Without content there is no tag range to compute.
+        if (spec.nodes.num_nodes == 0) {
+            spec.nodes.min_node_tag = 0;
+            spec.nodes.max_node_tag = 0;
+        }
+        if (spec.elements.num_elements == 0) {
+            spec.elements.min_element_tag = 0;
+            spec.elements.max_element_tag = 0;
+        }
         v22::regroup_nodes_into_blocks(spec);
         v22::regroup_elements_into_blocks(spec);
     }
-- 
2.43.0


From cb7d0083f616ca0e69e3c7fbbc7e2c0e9e35584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 08/20] fix: add up repeated binary MSH 2.2 element sections

The element count was overwritten by each section while the elements were
accumulated, unlike in the ASCII reader.
---
 src/load_msh_elements.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 662e410..8b4e29b 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -173,7 +173,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
 void load_elements_binary(std::istream& in, MshSpec& spec)
 {
     Elements& elements = spec.elements;
-    in >> elements.num_elements;
+    size_t num_elements;
+    in >> num_elements;
+    elements.num_elements += num_elements;
     elements.entity_blocks.reserve(elements.num_elements);
     eat_white_space(in, 1);
 
@@ -183,7 +185,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     int32_t min_tag = std::numeric_limits<int32_t>::max();
     int32_t max_tag = 0;
     size_t num_processed_elements = 0;
-    while (num_processed_elements != elements.num_elements) {
+    while (num_processed_elements != num_elements) {
         int32_t element_type, num_elements_in_block, num_tags, element_id;
         in.read(reinterpret_cast<char*>(&element_type), 4);
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
@@ -235,7 +237,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
             }
 
             num_processed_elements++;
-            if (num_processed_elements > elements.num_elements) {
+            if (num_processed_elements > num_elements) {
                 throw InvalidFormat("Inconsistent element count detected!");
             }
         }
-- 
2.43.0


From a58006b57b23902f56c6a20859de1fc40343b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 09/20] fix: refuse malformed and truncated files instead of
 hanging

Once a read failed without reaching the end of the file, load_msh looped
forever; when it did reach the end, a partly filled description was returned
as if the file were complete. Stream failures inside a section, including a
missing end marker, now raise CorruptData.
---
 src/load_msh.cpp | 55 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 1c65163..094ad04 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -1,4 +1,5 @@
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include "load_msh_curves.h"
 #include "load_msh_data.h"
@@ -18,24 +19,54 @@
 
 namespace mshio {
 
+namespace {
+
+// Turns every stream failure into an exception while in scope, and restores the
+// caller's setting afterwards.
+class ThrowOnFailure
+{
+public:
+    explicit ThrowOnFailure(std::istream& in)
+        : m_in(in)
+        , m_mask(in.exceptions())
+    {
+        m_in.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+    }
+    ~ThrowOnFailure()
+    {
+        try {
+            m_in.exceptions(m_mask);
+        } catch (const std::ios_base::failure&) {
+            // Being reported already.
+        }
+    }
+    ThrowOnFailure(const ThrowOnFailure&) = delete;
+    ThrowOnFailure& operator=(const ThrowOnFailure&) = delete;
+
+private:
+    std::istream& m_in;
+    std::ios_base::iostate m_mask;
+};
+
+} // namespace
+
 void forward_to(std::istream& in, const std::string& flag)
 {
     std::string buf;
-    while (!in.eof() && buf != flag) {
+    while (buf != flag) {
         in >> buf;
     }
 }
 
-MshSpec load_msh(std::istream& in)
+static MshSpec load_sections(std::istream& in)
 {
     MshSpec spec;
     std::string buf, end_str;
 
-    while (!in.eof()) {
-        buf.clear();
-        in >> buf;
-        if (buf.size() == 0 || buf[0] != '$') continue;
+    while (in >> buf) {
+        if (buf[0] != '$') continue;
         end_str = "$End" + buf.substr(1);
+        const ThrowOnFailure throw_on_failure(in);
         if (buf == "$MeshFormat") {
             load_mesh_format(in, spec);
         } else if (buf == "$Entities") {
@@ -63,11 +94,23 @@ MshSpec load_msh(std::istream& in)
         }
         forward_to(in, end_str);
     }
+    if (in.bad()) {
+        throw std::runtime_error("Failed to read input!");
+    }
 
     load_msh_post_process(spec);
     return spec;
 }
 
+MshSpec load_msh(std::istream& in)
+{
+    try {
+        return load_sections(in);
+    } catch (const std::ios_base::failure&) {
+        throw CorruptData("Malformed or incomplete section!");
+    }
+}
+
 MshSpec load_msh(const std::string& filename)
 {
     std::ifstream fin(filename.c_str(), std::ios::binary);
-- 
2.43.0


From aac0455968b53cf9ccfa758cd3d4a2451b8d9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 10/20] fix: find the end marker of skipped binary sections

The marker was only recognised as a word of its own, so a skipped section whose
binary body ends right at the marker (as save_msh writes them) swallowed the
rest of the file.
---
 src/load_msh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 094ad04..6b9634d 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -52,8 +52,10 @@ private:
 
 void forward_to(std::istream& in, const std::string& flag)
 {
+    // Binary bodies may run into the end marker without any white space.
     std::string buf;
-    while (buf != flag) {
+    while (buf.size() < flag.size() ||
+           buf.compare(buf.size() - flag.size(), flag.size(), flag) != 0) {
         in >> buf;
     }
 }
-- 
2.43.0


From dc3d091f5fe30a04088a0e8c0af58c5052686582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 11/20] fix: refuse input streams that cannot be read at all

A stream that was never opened loaded as an empty description.
---
 src/load_msh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 6b9634d..f594df5 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -96,7 +96,7 @@ static MshSpec load_sections(std::istream& in)
         }
         forward_to(in, end_str);
     }
-    if (in.bad()) {
+    if (in.bad() || !in.eof()) {
         throw std::runtime_error("Failed to read input!");
     }
 
-- 
2.43.0


From c086f046fb9fe20bb5bf01cc0d539db8c72f9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 12/20] fix: reject negative or overflowing sizes in damaged
 files

Negative field or node counts, and element counts whose product with the
element size wraps around, led to undersized arrays being written out of
bounds.
---
 src/load_msh_data.cpp     | 14 ++++++++++++++
 src/load_msh_elements.cpp |  9 ++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 9063532..e004a40 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -37,6 +37,13 @@ void load_data_header(std::istream& in, DataHeader& header)
     assert(in.good());
 }
 
+void check_num_nodes_per_element(const DataEntry& entry)
+{
+    if (entry.num_nodes_per_element < 0) {
+        throw CorruptData("Negative number of nodes per element.");
+    }
+}
+
 namespace v41 {
 void load_data_entry(
     std::istream& in, DataEntry& entry, size_t fields_per_entry, bool is_element_node_data)
@@ -51,6 +58,7 @@ void load_data_entry(
     // in.read(reinterpret_cast<char*>(&entry.tag), sizeof(size_t));
     if (is_element_node_data) {
         in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
+        check_num_nodes_per_element(entry);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
@@ -71,6 +79,7 @@ void load_data_entry(
         int32_t num_nodes_per_element;
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
+        check_num_nodes_per_element(entry);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
@@ -92,6 +101,10 @@ void load_data(std::istream& in,
         throw InvalidFormat("Data requires at least 3 int tags.");
     }
 
+    if (data.header.int_tags[1] < 0 || data.header.int_tags[2] < 0) {
+        throw CorruptData("Negative number of data fields or entries.");
+    }
+
     size_t fields_per_entry = static_cast<size_t>(data.header.int_tags[1]);
     size_t num_entries = static_cast<size_t>(data.header.int_tags[2]);
     data.entries.resize(num_entries);
@@ -115,6 +128,7 @@ void load_data(std::istream& in,
             in >> entry.tag;
             if (is_element_node_data) {
                 in >> entry.num_nodes_per_element;
+                check_num_nodes_per_element(entry);
                 entry.data.resize(fields_per_entry * entry.num_nodes_per_element);
                 for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
                     for (size_t k = 0; k < fields_per_entry; k++) {
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 8b4e29b..6eadcd8 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -39,6 +39,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> block.num_elements_in_block;
 
         const size_t n = nodes_per_element(block.element_type);
+        if (block.num_elements_in_block > block.data.max_size() / (n + 1)) {
+            throw CorruptData("Impossible number of elements.");
+        }
         block.data.resize(block.num_elements_in_block * (n + 1));
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             for (size_t k = 0; k <= n; k++) {
@@ -69,6 +72,9 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.num_elements_in_block), sizeof(size_t));
 
         const size_t n = nodes_per_element(block.element_type);
+        if (block.num_elements_in_block > block.data.max_size() / (n + 1)) {
+            throw CorruptData("Impossible number of elements.");
+        }
         block.data.resize(block.num_elements_in_block * (n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
@@ -200,7 +206,8 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         // a regrouping will happen at post-processing time.
         for (size_t i = 0; i < num_elements_in_block; i++) {
             in.read(reinterpret_cast<char*>(&element_id), 4);
-            in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
+            in.read(reinterpret_cast<char*>(tags.data()),
+                static_cast<std::streamsize>(4 * tags.size()));
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
 
             min_tag = std::min(min_tag, element_id);
-- 
2.43.0


From b17ed88d7268592f055bc463b1df777bf6d5f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 13/20] fix: make validate_spec check element data size and
 totals

It divided by zero on empty element blocks, never compared the element data
with the element type, the totals with the blocks, and disagreed with the
readers and writers on which blocks are parametric; save_msh then read out of
bounds or wrote unreadable files.
---
 src/validate_spec.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/validate_spec.cpp b/src/validate_spec.cpp
index 438d201..fbc0e2c 100644
--- a/src/validate_spec.cpp
+++ b/src/validate_spec.cpp
@@ -1,3 +1,5 @@
+#include "element_utils.h"
+
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
@@ -25,6 +27,13 @@ void validate_spec(const MshSpec& spec)
     ASSERT(
         elements.min_element_tag <= elements.max_element_tag, "Min element tag > max element tag.");
 
+    size_t num_nodes = 0, num_elements = 0;
+    for (const NodeBlock& block : nodes.entity_blocks) num_nodes += block.num_nodes_in_block;
+    for (const ElementBlock& block : elements.entity_blocks)
+        num_elements += block.num_elements_in_block;
+    ASSERT(nodes.num_nodes == num_nodes, "Inconsistent number of nodes.");
+    ASSERT(elements.num_elements == num_elements, "Inconsistent number of elements.");
+
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         const NodeBlock& block = nodes.entity_blocks[i];
         ASSERT(block.tags.size() == block.num_nodes_in_block, "Inconsist number of node tags.");
@@ -33,7 +42,7 @@ void validate_spec(const MshSpec& spec)
             ASSERT(block.tags[j] <= nodes.max_node_tag, "Node tag > max node tag.");
         }
 
-        if (block.parametric > 0) {
+        if (block.parametric == 1) {
             ASSERT(block.data.size() ==
                        block.num_nodes_in_block * static_cast<size_t>(3 + block.entity_dim),
                 "Invalide node data size.");
@@ -44,8 +53,10 @@ void validate_spec(const MshSpec& spec)
 
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
-        const size_t entries_per_element = block.data.size() / block.num_elements_in_block;
-        ASSERT(block.data.size() % entries_per_element == 0, "Invalid element data size.");
+        const size_t entries_per_element = nodes_per_element(block.element_type) + 1;
+        ASSERT(block.data.size() % entries_per_element == 0 &&
+                   block.data.size() / entries_per_element == block.num_elements_in_block,
+            "Invalid element data size.");
         for (size_t j = 0; j < block.data.size(); j++) {
             if (j % entries_per_element == 0) {
                 ASSERT(block.data[j] >= elements.min_element_tag, "Element tag < min element tag.");
-- 
2.43.0


From 0baf1f88ce681982dab523d6d531be0ee1e64c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 14/20] fix: make validate_spec reject parametric node blocks
 of negative dimension

---
 src/validate_spec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validate_spec.cpp b/src/validate_spec.cpp
index fbc0e2c..4542cb4 100644
--- a/src/validate_spec.cpp
+++ b/src/validate_spec.cpp
@@ -43,6 +43,7 @@ void validate_spec(const MshSpec& spec)
         }
 
         if (block.parametric == 1) {
+            ASSERT(block.entity_dim >= 0, "Negative dimension of a parametric node block.");
             ASSERT(block.data.size() ==
                        block.num_nodes_in_block * static_cast<size_t>(3 + block.entity_dim),
                 "Invalide node data size.");
-- 
2.43.0


From c70951a492840c9e6b3a0bcfffe58121b828afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 15/20] fix: refuse curve and patch sizes that wrap around

---
 src/load_msh_curves.cpp  | 15 +++++++++++++++
 src/load_msh_patches.cpp | 16 ++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index 9e21d15..d391841 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -1,10 +1,23 @@
 #include "load_msh_curves.h"
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
 namespace mshio {
 
 namespace {
 
+#ifdef MSHIO_EXT_NANOSPLINE
+// The number of data entries must not wrap around.
+void check_curve_size(const Curve& curve)
+{
+    const size_t limit = curve.data.max_size() / 8;
+    if (curve.num_control_points > limit || curve.num_knots > limit) {
+        throw CorruptData("Impossible number of control points or knots.");
+    }
+}
+#endif
+
 void load_curves_ascii(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
@@ -21,6 +34,7 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         in >> curve.num_control_points;
         in >> curve.num_knots;
         in >> curve.with_weights;
+        check_curve_size(curve);
 
         size_t num_entries =
             curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
@@ -48,6 +62,7 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
         in >> curve.num_control_points;
         in >> curve.num_knots;
         in >> curve.with_weights;
+        check_curve_size(curve);
 
         eat_white_space(in, 1);
         size_t num_entries =
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 161c679..b95bb5f 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -1,10 +1,24 @@
 #include "load_msh_patches.h"
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
 namespace mshio {
 
 namespace {
 
+#ifdef MSHIO_EXT_NANOSPLINE
+// The number of data entries must not wrap around.
+void check_patch_size(const Patch& patch)
+{
+    const size_t limit = patch.data.max_size() / 8;
+    if (patch.num_control_points > limit || patch.num_u_knots > limit ||
+        patch.num_v_knots > limit) {
+        throw CorruptData("Impossible number of control points or knots.");
+    }
+}
+#endif
+
 void load_patches_ascii(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
@@ -23,6 +37,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         in >> patch.num_u_knots;
         in >> patch.num_v_knots;
         in >> patch.with_weights;
+        check_patch_size(patch);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
@@ -54,6 +69,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         in >> patch.num_u_knots;
         in >> patch.num_v_knots;
         in >> patch.with_weights;
+        check_patch_size(patch);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
-- 
2.43.0


From e1d6cffc5710afed7be6a6f759504f8632ad4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 16/20] Revert "fix: make validate_spec reject parametric node
 blocks of negative dimension"

This reverts commit 0baf1f88ce681982dab523d6d531be0ee1e64c36.
---
 src/validate_spec.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/validate_spec.cpp b/src/validate_spec.cpp
index 4542cb4..fbc0e2c 100644
--- a/src/validate_spec.cpp
+++ b/src/validate_spec.cpp
@@ -43,7 +43,6 @@ void validate_spec(const MshSpec& spec)
         }
 
         if (block.parametric == 1) {
-            ASSERT(block.entity_dim >= 0, "Negative dimension of a parametric node block.");
             ASSERT(block.data.size() ==
                        block.num_nodes_in_block * static_cast<size_t>(3 + block.entity_dim),
                 "Invalide node data size.");
-- 
2.43.0


From c772633b893e53f315b96af5d0f47e5c174ccefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 17/20] Revert "fix: make validate_spec check element data size
 and totals"

This reverts commit b17ed88d7268592f055bc463b1df777bf6d5f978.
---
 src/validate_spec.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/validate_spec.cpp b/src/validate_spec.cpp
index fbc0e2c..438d201 100644
--- a/src/validate_spec.cpp
+++ b/src/validate_spec.cpp
@@ -1,5 +1,3 @@
-#include "element_utils.h"
-
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
@@ -27,13 +25,6 @@ void validate_spec(const MshSpec& spec)
     ASSERT(
         elements.min_element_tag <= elements.max_element_tag, "Min element tag > max element tag.");
 
-    size_t num_nodes = 0, num_elements = 0;
-    for (const NodeBlock& block : nodes.entity_blocks) num_nodes += block.num_nodes_in_block;
-    for (const ElementBlock& block : elements.entity_blocks)
-        num_elements += block.num_elements_in_block;
-    ASSERT(nodes.num_nodes == num_nodes, "Inconsistent number of nodes.");
-    ASSERT(elements.num_elements == num_elements, "Inconsistent number of elements.");
-
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         const NodeBlock& block = nodes.entity_blocks[i];
         ASSERT(block.tags.size() == block.num_nodes_in_block, "Inconsist number of node tags.");
@@ -42,7 +33,7 @@ void validate_spec(const MshSpec& spec)
             ASSERT(block.tags[j] <= nodes.max_node_tag, "Node tag > max node tag.");
         }
 
-        if (block.parametric == 1) {
+        if (block.parametric > 0) {
             ASSERT(block.data.size() ==
                        block.num_nodes_in_block * static_cast<size_t>(3 + block.entity_dim),
                 "Invalide node data size.");
@@ -53,10 +44,8 @@ void validate_spec(const MshSpec& spec)
 
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
-        const size_t entries_per_element = nodes_per_element(block.element_type) + 1;
-        ASSERT(block.data.size() % entries_per_element == 0 &&
-                   block.data.size() / entries_per_element == block.num_elements_in_block,
-            "Invalid element data size.");
+        const size_t entries_per_element = block.data.size() / block.num_elements_in_block;
+        ASSERT(block.data.size() % entries_per_element == 0, "Invalid element data size.");
         for (size_t j = 0; j < block.data.size(); j++) {
             if (j % entries_per_element == 0) {
                 ASSERT(block.data[j] >= elements.min_element_tag, "Element tag < min element tag.");
-- 
2.43.0


From af6eb1557af53ab31ab9925b77195c63ed4eabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 18/20] fix: keep locale and stream settings out of MSH files

Numbers were written and read with the stream's own locale, flags and field
width, and files took the process's global locale: digit grouping, decimal
commas, hexadecimal or padded numbers made files unreadable or misread.
---
 src/io_utils.cpp | 17 +++++++++++++++++
 src/io_utils.h   | 19 +++++++++++++++++++
 src/load_msh.cpp |  2 ++
 src/save_msh.cpp | 33 ++-------------------------------
 4 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 351ceeb..bcc3213 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -29,5 +29,22 @@ int32_t to_int32_tag(size_t tag)
     return static_cast<int32_t>(tag);
 }
 
+PlainSettings::PlainSettings(std::ios& stream)
+    : m_stream(stream)
+    , m_flags(stream.flags(std::ios_base::dec | std::ios_base::skipws))
+    // Makes ASCII numbers lossless.
+    , m_precision(stream.precision(std::numeric_limits<double>::max_digits10))
+    , m_locale(stream.imbue(std::locale::classic()))
+{
+    stream.width(0);
+}
+
+PlainSettings::~PlainSettings()
+{
+    m_stream.imbue(m_locale);
+    m_stream.precision(m_precision);
+    m_stream.flags(m_flags);
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index 3ea698c..eda8a76 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -2,8 +2,10 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <ios>
 #include <istream>
 #include <limits>
+#include <locale>
 
 namespace mshio {
 
@@ -12,5 +14,22 @@ void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t
 // Converts a tag for a 32-bit field; throws UnsupportedFeature if it does not fit.
 int32_t to_int32_tag(size_t tag);
 
+// Gives a stream the settings MSH files are read and written with, whatever its
+// flags, precision, field width and locale are, and restores them afterwards.
+class PlainSettings
+{
+public:
+    explicit PlainSettings(std::ios& stream);
+    ~PlainSettings();
+    PlainSettings(const PlainSettings&) = delete;
+    PlainSettings& operator=(const PlainSettings&) = delete;
+
+private:
+    std::ios& m_stream;
+    std::ios_base::fmtflags m_flags;
+    std::streamsize m_precision;
+    std::locale m_locale;
+};
+
 } // namespace mshio
 
diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index f594df5..918b01a 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -1,6 +1,7 @@
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
+#include "io_utils.h"
 #include "load_msh_curves.h"
 #include "load_msh_data.h"
 #include "load_msh_elements.h"
@@ -106,6 +107,7 @@ static MshSpec load_sections(std::istream& in)
 
 MshSpec load_msh(std::istream& in)
 {
+    const PlainSettings plain_settings(in);
     try {
         return load_sections(in);
     } catch (const std::ios_base::failure&) {
diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index ed453d9..ab5be93 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -1,5 +1,6 @@
 #include <mshio/MshSpec.h>
 
+#include "io_utils.h"
 #include "save_msh_curves.h"
 #include "save_msh_data.h"
 #include "save_msh_elements.h"
@@ -12,42 +13,12 @@
 
 #include <cassert>
 #include <fstream>
-#include <ios>
-#include <limits>
 
 namespace mshio {
 
-namespace {
-
-// Makes ASCII numbers lossless, whatever the caller's stream is set to, and
-// restores the caller's settings afterwards.
-class LosslessFormat
-{
-public:
-    explicit LosslessFormat(std::ostream& out)
-        : m_out(out)
-        , m_flags(out.flags(std::ios_base::dec | std::ios_base::skipws))
-        , m_precision(out.precision(std::numeric_limits<double>::max_digits10))
-    {}
-    ~LosslessFormat()
-    {
-        m_out.flags(m_flags);
-        m_out.precision(m_precision);
-    }
-    LosslessFormat(const LosslessFormat&) = delete;
-    LosslessFormat& operator=(const LosslessFormat&) = delete;
-
-private:
-    std::ostream& m_out;
-    std::ios_base::fmtflags m_flags;
-    std::streamsize m_precision;
-};
-
-} // namespace
-
 void save_msh(std::ostream& out, const MshSpec& spec)
 {
-    const LosslessFormat lossless_format(out);
+    const PlainSettings plain_settings(out);
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
         save_physical_groups(out, spec);
-- 
2.43.0


From 452bdd612c3564d07a91031cb1a836ee974b57da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 19/20] fix: bind DataEntry.num_nodes_per_element under its own
 name

It was reachable in Python only as the misspelt num_nodes_per_elements, which
is kept.
---
 python/pymshio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pymshio.cpp b/python/pymshio.cpp
index 19b7ec5..a458bf2 100644
--- a/python/pymshio.cpp
+++ b/python/pymshio.cpp
@@ -92,6 +92,7 @@ NB_MODULE(pymshio, m)
     nb::class_<mshio::DataEntry>(m, "DataEntry")
         .def(nb::init<>())
         .def_rw("tag", &mshio::DataEntry::tag)
+        .def_rw("num_nodes_per_element", &mshio::DataEntry::num_nodes_per_element)
         .def_rw("num_nodes_per_elements", &mshio::DataEntry::num_nodes_per_element)
         .def_rw("data", &mshio::DataEntry::data)
         .def("__repr__", [](const mshio::DataEntry& self) {
-- 
2.43.0


From 109b6eec2523e2e253daeff6fb18cc6eccbbf326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:06 +0000
Subject: [PATCH 20/20] fix: do not reserve room for every node of a 2.2 file
 in each of its node blocks

The memory asked for grew with the square of the file: 40000 nodes in blocks
of their own asked for 51 GB, and the load ended in bad_alloc.
---
 src/load_msh_post_process.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 58bd8fb..61a220a 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -49,8 +49,6 @@ void regroup_nodes_into_blocks(MshSpec& spec)
             if (dim != curr_dim || tag != curr_tag) {
                 node_blocks.emplace_back();
                 auto& curr_block = node_blocks.back();
-                curr_block.tags.reserve(block.num_nodes_in_block);
-                curr_block.data.reserve(block.num_nodes_in_block * 3);
                 curr_block.entity_dim = static_cast<int>(dim);
                 curr_block.entity_tag = static_cast<int>(tag);
                 curr_dim = dim;
-- 
2.43.0

