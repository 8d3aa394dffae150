From 457eddbd4c608a0e38dcf6066eca769372bf7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 01/46] fix: region and chunk differences beyond 2^31
 overflowed int in Blocking::getCoordinatesInRoi

---
 include/z5/util/blocking.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index 1b244b5..b0c088c 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -155,7 +155,7 @@ namespace util {
 
             bool completeOvlp = true;
             std::size_t blockEnd, roiEnd;
-            int offDiff, endDiff;
+            std::ptrdiff_t offDiff, endDiff;
             for(unsigned d = 0; d < nDim; ++d) {
 
                 // first we calculate the block end coordinate
-- 
2.43.0


From 2379050db521e45c847fc3d71d50a27c4153203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 02/46] fix: parallel_foreach did not compile for forward
 iterators (assignment to a const parameter)

---
 include/z5/util/threadpool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 4aedd4f..80a4b82 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -383,7 +383,7 @@ inline void parallel_foreach_impl(
 template<class ITER, class F>
 inline void parallel_foreach_impl(
     ThreadPool & pool,
-    const std::ptrdiff_t nItems,
+    std::ptrdiff_t nItems,
     ITER iter,
     ITER end,
     F && f,
-- 
2.43.0


From 8880dce4074392e8d7faf66f6599ca780fc0e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:44 +0000
Subject: [PATCH 03/46] fix: an integer index of -size selected index -size
 instead of 0

---
 src/python/module/z5py/shape_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 99c2ea2..fe2cd1f 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -41,7 +41,7 @@ def slice_to_start_stop(s, size):
 def int_to_start_stop(i, size):
     """For a single dimension with a given size, turn an int into slice(start, stop)
     pair."""
-    if -size < i < 0:
+    if -size <= i < 0:
         start = i + size
     elif i >= size or i < -size:
         raise ValueError('Index ({}) out of range (0-{})'.format(i, size - 1))
-- 
2.43.0


From feb1fbc0f63cc6f18e4d99af8f1dee005fd06c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 04/46] fix: arrays with only singleton axes could not be
 assigned to a one-element selection with more axes

---
 src/python/module/z5py/shape_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index fe2cd1f..1991625 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -77,6 +77,10 @@ def rectify_shape(arr, required_shape):
 
     important_shape = tuple(important_shape)
 
+    # a single element fits any selection of a single element
+    if important_shape == (1,) and all(sh == 1 for sh in required_shape):
+        return arr.reshape(required_shape)
+
     msg = ('could not broadcast input array from shape {} into shape {}; '
            'complicated broadcasting not supported').format(arr.shape, required_shape)
 
-- 
2.43.0


From 3df3bbe46220a0e1f210ddd1c08934279961be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 05/46] fix: compression_opts of raw datasets failed with an
 AttributeError

---
 src/python/lib/dataset.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index e327a4b..96ade26 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -249,7 +249,7 @@ namespace z5 {
             .def_prop_ro("compression_options", [](const Dataset & ds){
                 types::CompressionOptions opts;
                 ds.getCompressionOptions(opts);
-                nlohmann::json j;
+                nlohmann::json j = nlohmann::json::object();
                 types::compressionTypeToJson(opts, j);
                 return j.dump();
             })
-- 
2.43.0


From 1a1692cb214400e0d499b47e28142c7d2af356e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 06/46] fix: groups and datasets at nested paths got a wrong
 name and parent and no metadata for intermediate groups

---
 src/python/module/z5py/group.py | 107 ++++++++++++++++++++------------
 1 file changed, 68 insertions(+), 39 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index cb30dbf..ca40291 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -16,6 +16,12 @@ def _unpickle_group(file_obj, name):
     return _navigate(file_obj, name)
 
 
+def _split_path(name):
+    # the path components of a name; leading, trailing and repeated '/' are ignored,
+    # and paths are always relative to the group they are used with
+    return [part for part in name.split('/') if part]
+
+
 class Group(Mapping):
     """ Group inside of a z5py container.
 
@@ -61,16 +67,32 @@ class Group(Mapping):
         return len(self._handle.keys())
 
     def __contains__(self, name):
-        return self._handle.has(name.lstrip('/'))
-
+        parts = _split_path(name)
+        parent = self._sub_handle(parts[:-1])
+        return parent is not None and (not parts or parent.has(parts[-1]))
+
+    def _sub_handle(self, parts):
+        # handle of the sub-group with the given path, or None if there is no such group
+        handle = self._handle
+        for part in parts:
+            if not (handle.has(part) and handle.is_sub_group(part)):
+                return None
+            handle = self._handle_factory(handle, part)
+        return handle
+
+    def _child_group(self, handle, name):
+        return Group(handle, self._handle_factory, self, self._name + '/' + name,
+                     self._dimension_separator, self._zarr_format)
     def __delitem__(self, name):
         if not self._handle.mode().can_write():
             raise ValueError("Cannot call delete on file not opened with write permissions.")
         if name not in self:
             raise KeyError("%s does not exist" % name)
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
-            handle.remove()
+        parts = _split_path(name)
+        if not parts:
+            raise ValueError("Cannot delete a group through itself.")
+        if self.is_sub_group(name):
+            self._sub_handle(parts).remove()
         else:
             _z5py.remove_dataset(self[name]._impl, 1)
 
@@ -88,12 +110,16 @@ class Group(Mapping):
         if name not in self:
             raise KeyError("Key %s does not exist" % name)
 
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
-            return Group(handle, self._handle_factory, self, self._name + '/' + name,
-                         self._dimension_separator, self._zarr_format)
-        else:
-            return Dataset._open_dataset(self, name.lstrip('/'))
+        group, parts = self, _split_path(name)
+        # open one path component at a time, so that the parent of the object is
+        # the group that contains it
+        for ii, part in enumerate(parts):
+            if not group._handle.is_sub_group(part):
+                if ii + 1 < len(parts):
+                    raise KeyError("Key %s does not exist" % name)
+                return Dataset._open_dataset(group, part)
+            group = group._child_group(self._handle_factory(group._handle, part), part)
+        return group
 
     @property
     def attrs(self):
@@ -146,7 +172,11 @@ class Group(Mapping):
         Returns:
             bool: True if ``name`` refers to a sub-group.
         """
-        return self._handle.is_sub_group(name)
+        parts = _split_path(name)
+        if not parts:
+            return True
+        parent = self._sub_handle(parts[:-1])
+        return parent is not None and parent.is_sub_group(parts[-1])
 
     def create_group(self, name):
         """ Create a new group.
@@ -164,9 +194,11 @@ class Group(Mapping):
             raise ValueError("Cannot create group with read-only permissions.")
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
-        handle = _z5py.create_group(self._handle, name, self._zarr_format)
-        return Group(handle, self._handle_factory, self, self._name + '/' + name,
-                     self._dimension_separator, self._zarr_format)
+        # create missing intermediate groups with proper metadata
+        parts = _split_path(name)
+        parent = self.require_group('/'.join(parts[:-1]))
+        handle = _z5py.create_group(parent._handle, parts[-1], self._zarr_format)
+        return parent._child_group(handle, parts[-1])
 
     def require_group(self, name):
         """ Require group.
@@ -180,16 +212,18 @@ class Group(Mapping):
         Returns:
             ``Group``: group of the requested name.
         """
-        if name in self:
-            if not self.is_sub_group(name):
-                raise TypeError("Incompatible object (Dataset) already exists")
-            handle = self._handle_factory(self._handle, name)
-        else:
-            if not self._handle.mode().can_write():
-                raise ValueError("Cannot create group with read-only permissions.")
-            handle = _z5py.create_group(self._handle, name, self._zarr_format)
-        return Group(handle, self._handle_factory, self, self._name + '/' + name,
-                     self._dimension_separator, self._zarr_format)
+        group = self
+        for part in _split_path(name):
+            if part in group:
+                if not group.is_sub_group(part):
+                    raise TypeError("Incompatible object (Dataset) already exists")
+                handle = self._handle_factory(group._handle, part)
+            else:
+                if not self._handle.mode().can_write():
+                    raise ValueError("Cannot create group with read-only permissions.")
+                handle = _z5py.create_group(group._handle, part, self._zarr_format)
+            group = group._child_group(handle, part)
+        return group
 
     #
     # Dataset functionality
@@ -237,19 +271,9 @@ class Group(Mapping):
             raise KeyError("Dataset %s is already existing." % name)
 
         # For nested paths, create intermediate groups with proper metadata
-        parts = name.lstrip('/').split('/')
-        if len(parts) > 1:
-            group = self
-            for part in parts[:-1]:
-                group = group.require_group(part)
-            return group.create_dataset(parts[-1], shape, dtype,
-                                        data, chunks, compression,
-                                        fillvalue, n_threads,
-                                        shards=shards,
-                                        chunk_key_encoding=chunk_key_encoding,
-                                        **compression_options)
-
-        return Dataset._create_dataset(self, name, shape, dtype,
+        parts = _split_path(name)
+        group = self.require_group('/'.join(parts[:-1]))
+        return Dataset._create_dataset(group, parts[-1], shape, dtype,
                                        data, chunks, compression,
                                        fillvalue, n_threads,
                                        compression_options,
@@ -282,7 +306,12 @@ class Group(Mapping):
         """
         # NOTE write permissions are only required if the dataset does not exist;
         # _require_dataset checks this on its creation path
-        return Dataset._require_dataset(self, name, shape, dtype, chunks,
+        parts = _split_path(name)
+        if not parts:
+            raise TypeError("Incompatible object (Group) already exists")
+        # NOTE this creates intermediate groups with proper metadata if they are missing
+        group = self.require_group('/'.join(parts[:-1]))
+        return Dataset._require_dataset(group, parts[-1], shape, dtype, chunks,
                                         n_threads, dimension_separator=self._dimension_separator,
                                         zarr_format=self._zarr_format, **kwargs)
 
-- 
2.43.0


From 8212a20913c967630231bb1118d1dfd6a07b808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:49 +0000
Subject: [PATCH 07/46] fix: '.', '..' and metadata file names were accepted as
 object names and reached outside of the group

---
 src/python/module/z5py/group.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index ca40291..b4c55c2 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -22,6 +22,15 @@ def _split_path(name):
     return [part for part in name.split('/') if part]
 
 
+# '.' and '..' would address other objects (also outside of the container), and
+# the others are the names of the metadata files
+_RESERVED_NAMES = {'.', '..', '.zgroup', '.zarray', '.zattrs', 'zarr.json', 'attributes.json'}
+
+
+def _is_valid_path(name):
+    return not any(part in _RESERVED_NAMES or '\0' in part for part in _split_path(name))
+
+
 class Group(Mapping):
     """ Group inside of a z5py container.
 
@@ -67,6 +76,8 @@ class Group(Mapping):
         return len(self._handle.keys())
 
     def __contains__(self, name):
+        if not _is_valid_path(name):
+            return False
         parts = _split_path(name)
         parent = self._sub_handle(parts[:-1])
         return parent is not None and (not parts or parent.has(parts[-1]))
@@ -172,6 +183,8 @@ class Group(Mapping):
         Returns:
             bool: True if ``name`` refers to a sub-group.
         """
+        if name not in self:
+            return False
         parts = _split_path(name)
         if not parts:
             return True
@@ -194,6 +207,8 @@ class Group(Mapping):
             raise ValueError("Cannot create group with read-only permissions.")
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
+        if not _is_valid_path(name):
+            raise ValueError("Invalid group name %s" % name)
         # create missing intermediate groups with proper metadata
         parts = _split_path(name)
         parent = self.require_group('/'.join(parts[:-1]))
@@ -212,6 +227,8 @@ class Group(Mapping):
         Returns:
             ``Group``: group of the requested name.
         """
+        if not _is_valid_path(name):
+            raise ValueError("Invalid group name %s" % name)
         group = self
         for part in _split_path(name):
             if part in group:
@@ -269,6 +286,8 @@ class Group(Mapping):
             raise ValueError("Cannot create dataset with read-only permissions.")
         if name in self:
             raise KeyError("Dataset %s is already existing." % name)
+        if not _is_valid_path(name):
+            raise ValueError("Invalid dataset name %s" % name)
 
         # For nested paths, create intermediate groups with proper metadata
         parts = _split_path(name)
@@ -306,6 +325,8 @@ class Group(Mapping):
         """
         # NOTE write permissions are only required if the dataset does not exist;
         # _require_dataset checks this on its creation path
+        if not _is_valid_path(name):
+            raise ValueError("Invalid dataset name %s" % name)
         parts = _split_path(name)
         if not parts:
             raise TypeError("Incompatible object (Group) already exists")
-- 
2.43.0


From 6b1374b693e3219bc4cfad106033959cd9bd2563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:05 +0000
Subject: [PATCH 08/46] fix: zero-dimensional, zero-sized, overflowing and
 (from metadata) inconsistent shard shapes were accepted

---
 include/z5/metadata.hxx | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index b572004..e04afd5 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -407,6 +407,32 @@ namespace z5 {
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
+            if(shape.empty()) {
+                throw std::runtime_error("Zero-dimensional datasets are not supported");
+            }
+            // the number of bytes in a chunk must be representable
+            std::size_t chunkBytes = types::datatypeSize(dtype);
+            for(const auto chunkLen : chunkShape) {
+                if(chunkLen == 0) {
+                    throw std::runtime_error("The chunk shape must not contain zeros");
+                }
+                if(chunkBytes > std::numeric_limits<std::size_t>::max() / chunkLen) {
+                    throw std::runtime_error("The chunk shape is too large");
+                }
+                chunkBytes *= chunkLen;
+            }
+            // the shard shape (if sharded) must be a whole multiple of the
+            // (inner) chunk shape along every axis
+            if(!shardShape.empty()) {
+                if(shardShape.size() != chunkShape.size()) {
+                    throw std::runtime_error("Dimension of shards and chunks does not agree");
+                }
+                for(std::size_t d = 0; d < shardShape.size(); ++d) {
+                    if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                        throw std::runtime_error("The shard shape must be a multiple of the chunk shape");
+                    }
+                }
+            }
         }
 
 
-- 
2.43.0


From 55f5b319e2af2684e0cc16d27be4f33e6088f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:05 +0000
Subject: [PATCH 09/46] fix: invalid chunk key encodings and separators were
 accepted

---
 include/z5/metadata.hxx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index e04afd5..016bb4b 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -58,6 +58,7 @@ namespace z5 {
                 shardShape(shardShape)
         {
             checkShapes();
+            checkChunkKeys();
         }
 
 
@@ -95,6 +96,7 @@ namespace z5 {
                 fromJsonN5(j);
             }
             checkShapes();
+            checkChunkKeys();
         }
 
     private:
@@ -436,6 +438,20 @@ namespace z5 {
         }
 
 
+        // make sure that the chunk keys are unambiguous and valid (n5 keys are fixed)
+        void checkChunkKeys() {
+            if(!isZarr) {
+                return;
+            }
+            if(zarrDelimiter != "." && zarrDelimiter != "/") {
+                throw std::runtime_error("Invalid dimension separator: " + zarrDelimiter);
+            }
+            if(zarrFormat == 3 && chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("Invalid chunk key encoding: " + chunkKeyEncoding);
+            }
+        }
+
+
         // make sure that fixed metadata values agree
         void checkJson(const nlohmann::json & j) {
 
-- 
2.43.0


From 0e9a7d13816365441e0db8582ae53196ad4cb157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:40 +0000
Subject: [PATCH 10/46] fix: metadata with missing keys was read with an
 unchecked operator[] (undefined behaviour)

---
 include/z5/metadata.hxx    | 20 ++++++++++----------
 include/z5/types/types.hxx | 38 +++++++++++++++++++-------------------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 016bb4b..e8cf42c 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -146,14 +146,14 @@ namespace z5 {
         void fromJsonZarr(const nlohmann::json & j) {
             checkJson(j);
             try {
-                dtype = types::Datatypes::zarrToDtype().at(j["dtype"]);
+                dtype = types::Datatypes::zarrToDtype().at(j.at("dtype"));
             } catch(std::out_of_range) {
-                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j["dtype"]));
+                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j.at("dtype")));
             }
-            shape = types::ShapeType(j["shape"].begin(), j["shape"].end());
-            chunkShape = types::ShapeType(j["chunks"].begin(), j["chunks"].end());
+            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
+            chunkShape = types::ShapeType(j.at("chunks").begin(), j.at("chunks").end());
 
-            const auto & fillValJson = j["fill_value"];
+            const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
                 if (fillValJson == "NaN") {
                     fillValue = std::numeric_limits<double>::quiet_NaN();
@@ -177,9 +177,9 @@ namespace z5 {
                 zarrDelimiter = ".";
             }
 
-            const auto & compressionOpts = j["compressor"];
+            const auto & compressionOpts = j.at("compressor");
 
-            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts["id"];
+            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts.at("id");
             try {
                 compressor = types::Compressors::zarrToCompressor().at(zarrCompressorId);
             } catch(std::out_of_range) {
@@ -192,13 +192,13 @@ namespace z5 {
 
         void fromJsonN5(const nlohmann::json & j) {
 
-            dtype = types::Datatypes::n5ToDtype().at(j["dataType"]);
+            dtype = types::Datatypes::n5ToDtype().at(j.at("dataType"));
 
             // N5-Axis order: we need to reverse the shape when reading from metadata
-            shape = types::ShapeType(j["dimensions"].rbegin(), j["dimensions"].rend());
+            shape = types::ShapeType(j.at("dimensions").rbegin(), j.at("dimensions").rend());
 
             // N5-Axis order: we need to reverse the chunk shape when reading from metadata
-            chunkShape = types::ShapeType(j["blockSize"].rbegin(), j["blockSize"].rend());
+            chunkShape = types::ShapeType(j.at("blockSize").rbegin(), j.at("blockSize").rend());
 
             // we need to deal with two different encodings for compression in n5:
             // in the old format, we only have the field 'compressionType', indicating which compressor should be used
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index b22db3b..36dc07a 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -238,26 +238,26 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         break;
             #endif
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
-                       options["useZlib"] = jOpts["id"].get<std::string>() == "zlib";
+            case zlib: options["level"] = jOpts.at("level").get<int>();
+                       options["useZlib"] = jOpts.at("id").get<std::string>() == "zlib";
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["level"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["acceleration"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("acceleration").get<int>(); break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
@@ -312,31 +312,31 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
+            case zlib: options["level"] = jOpts.at("level").get<int>();
                        options["useZlib"] = false;
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_XZ
-            case xz: options["level"] = jOpts["preset"].get<int>(); break;
+            case xz: options["level"] = jOpts.at("preset").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         // load nthreads with default value 1
-                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts["nthreads"].get<int>();
+                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts.at("nthreads").get<int>();
                         break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
-- 
2.43.0


From 4a7bf7778bd0d25c547293739a6d4ea343f16200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:12 +0000
Subject: [PATCH 11/46] fix: unsupported zarr v3 codec pipelines, chunk grids
 and storage transformers were ignored and decoded as if supported

---
 include/z5/metadata.hxx    | 30 ++++++++++++++++++++++++++++++
 include/z5/types/types.hxx | 19 +++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index e8cf42c..4d87965 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -326,6 +326,9 @@ namespace z5 {
             shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
 
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
+            if(j.at("chunk_grid").at("name") != "regular") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only regular chunk grids are supported");
+            }
             const auto & gridShape = j.at("chunk_grid").at("configuration").at("chunk_shape");
             types::ShapeType outerShape(gridShape.begin(), gridShape.end());
 
@@ -356,6 +359,12 @@ namespace z5 {
                 fillValue = static_cast<double>(fillValJson);
             }
 
+            // storage transformers change how the chunks are stored
+            auto transformers = j.find("storage_transformers");
+            if(transformers != j.end() && !transformers->empty()) {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: storage transformers are not supported");
+            }
+
             // codecs: detect sharding, recover inner chunk shape + inner compressor
             const auto & codecs = j.at("codecs");
             const nlohmann::json * innerCodecs = &codecs;
@@ -369,6 +378,7 @@ namespace z5 {
                     chunkShape = types::ShapeType(innerShapeJson.begin(), innerShapeJson.end());
                     shardShape = outerShape;
                     innerCodecs = &scfg.at("codecs");
+                    checkShardingConfiguration(codecs, scfg);
                     break;
                 }
             }
@@ -438,6 +448,26 @@ namespace z5 {
         }
 
 
+        // make sure that the sharding codec is used in the way that z5 supports:
+        // as the only codec, with a little endian and crc32c checked index at the end
+        void checkShardingConfiguration(const nlohmann::json & codecs,
+                                        const nlohmann::json & config) const {
+            if(codecs.size() != 1) {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: codecs beside sharding_indexed are not supported");
+            }
+            if(config.value("index_location", std::string("end")) != "end") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only the index location 'end' is supported");
+            }
+            const auto & indexCodecs = config.at("index_codecs");
+            const bool isSupported = indexCodecs.is_array() && indexCodecs.size() == 2 &&
+                indexCodecs[0].at("name") == "bytes" && types::isLittleEndianV3(indexCodecs[0]) &&
+                indexCodecs[1].at("name") == "crc32c";
+            if(!isSupported) {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only the index codecs bytes (little endian), crc32c are supported");
+            }
+        }
+
+
         // make sure that the chunk keys are unambiguous and valid (n5 keys are fixed)
         void checkChunkKeys() {
             if(!isZarr) {
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 36dc07a..46bfb6b 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -506,16 +506,35 @@ namespace types {
         }
     }
 
+    // does the zarr v3 ``bytes`` codec use little endian byte order?
+    // (the endianness may be left out for data types of a single byte)
+    inline bool isLittleEndianV3(const nlohmann::json & bytesCodec) {
+        if(!bytesCodec.contains("configuration")) {
+            return true;
+        }
+        return bytesCodec.at("configuration").value("endian", std::string("little")) == "little";
+    }
+
     // parse a zarr v3 codec list into a Compressor + CompressionOptions (ignores the ``bytes`` codec)
     inline void readV3CodecsFromJson(const nlohmann::json & jCodecs,
                                      Compressor & compressor,
                                      CompressionOptions & options) {
         compressor = raw;
+        bool hasBytes = false, hasCompressor = false;
         for(const auto & c : jCodecs) {
             const std::string name = c.at("name").get<std::string>();
             if(name == "bytes") {
+                if(hasBytes || hasCompressor || !isLittleEndianV3(c)) {
+                    throw std::runtime_error("z5: unsupported zarr v3 bytes codec");
+                }
+                hasBytes = true;
                 continue;
             }
+            // z5 supports a single compressor, applied after the bytes codec
+            if(!hasBytes || hasCompressor) {
+                throw std::runtime_error("z5: unsupported zarr v3 codec: " + name);
+            }
+            hasCompressor = true;
             const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
             if(name == "gzip") {
                 #ifdef WITH_ZLIB
-- 
2.43.0


From c37b958cc273043cf9e89da5c6c54765d80b9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:29 +0000
Subject: [PATCH 12/46] fix: gzip was written as zlib in zarr v2 and (C++) zarr
 v3, its n5 useZlib option was lost, and it was reported as zlib

---
 include/z5/generic/dataset.hxx         |  4 +++-
 include/z5/generic/sharded_dataset.hxx |  4 +++-
 include/z5/metadata.hxx                |  8 +++++++-
 include/z5/types/types.hxx             | 16 +++++++++++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/z5/generic/dataset.hxx b/include/z5/generic/dataset.hxx
index e597931..bce806b 100644
--- a/include/z5/generic/dataset.hxx
+++ b/include/z5/generic/dataset.hxx
@@ -152,7 +152,9 @@ namespace generic {
         inline types::Compressor getCompressor() const {return Mixin::compressor_->type();}
         inline void getCompressor(std::string & compressor) const {
             auto compressorType = getCompressor();
-            compressor = isZarr_ ? types::Compressors::compressorToZarr()[compressorType] :
+            types::CompressionOptions opts;
+            getCompressionOptions(opts);
+            compressor = isZarr_ ? types::zarrCompressorName(compressorType, opts) :
                 types::Compressors::compressorToN5()[compressorType];
         }
         inline void getCompressionOptions(types::CompressionOptions & opts) const {
diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 716a850..5a60199 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -138,7 +138,9 @@ namespace generic {
 
         inline types::Compressor getCompressor() const {return Mixin::compressor_->type();}
         inline void getCompressor(std::string & compressor) const {
-            compressor = types::Compressors::compressorToZarr()[getCompressor()];
+            types::CompressionOptions opts;
+            getCompressionOptions(opts);
+            compressor = types::zarrCompressorName(getCompressor(), opts);
         }
         inline void getCompressionOptions(types::CompressionOptions & opts) const {
             Mixin::compressor_->getOptions(opts);
diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 4d87965..89766e6 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -549,7 +549,13 @@ namespace z5 {
         // add the default compression options if necessary
         // we need to make a copy of the compression options, because they are const
         auto internalCompressionOptions = compressionOptions;
-        types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
+        // zlib encoding is the default of zarr v2, unless gzip is requested; zarr v3 only has gzip
+        types::defaultCompressionOptions(internalCompressor, internalCompressionOptions,
+                                         createAsZarr && zarrFormat == 2 && compressor != "gzip");
+        auto useZlib = internalCompressionOptions.find("useZlib");
+        if(createAsZarr && zarrFormat == 3 && useZlib != internalCompressionOptions.end()) {
+            useZlib->second = false;
+        }
 
         // sharding is only valid for zarr v3, and the shard shape must be a
         // whole multiple of the (inner) chunk shape along every axis
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 46bfb6b..8f3ad8e 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -313,7 +313,7 @@ namespace types {
         switch(compressor) {
             #ifdef WITH_ZLIB
             case zlib: options["level"] = jOpts.at("level").get<int>();
-                       options["useZlib"] = false;
+                       options["useZlib"] = jOpts.value("useZlib", false);
                        break;
             #endif
             #ifdef WITH_BZIP2
@@ -356,6 +356,9 @@ namespace types {
         switch(compressor) {
             #ifdef WITH_ZLIB
             case zlib: jOpts["level"] = std::get<int>(options.at("level"));
+                       if(std::get<bool>(options.at("useZlib"))) {
+                           jOpts["useZlib"] = true;
+                       }
                        break;
             #endif
             #ifdef WITH_BZIP2
@@ -425,6 +428,17 @@ namespace types {
         }
     }
 
+    // name of the compressor in a zarr container; zlib and gzip share a compressor
+    // and are told apart by the options
+    inline std::string zarrCompressorName(const Compressor compressor,
+                                          const CompressionOptions & options) {
+        const auto useZlib = options.find("useZlib");
+        if(useZlib != options.end() && !std::get<bool>(useZlib->second)) {
+            return "gzip";
+        }
+        return Compressors::compressorToZarr()[compressor];
+    }
+
     //
     // zarr v3 codec (de)serialization
     //
-- 
2.43.0


From 2e7729266d7531be842ea45341dc8a9aafc3364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:29 +0000
Subject: [PATCH 13/46] fix: a non-zero fill value of an n5 dataset was used
 until it was re-opened, so that data equal to it was lost

---
 include/z5/metadata.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 89766e6..14c2662 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -576,7 +576,8 @@ namespace z5 {
         metadata = DatasetMetadata(internalDtype, shape,
                                    chunkShape, createAsZarr,
                                    internalCompressor, internalCompressionOptions,
-                                   fillValue, zarrDelimiter,
+                                   // n5 cannot store a fill value, it is always 0
+                                   createAsZarr ? fillValue : 0., zarrDelimiter,
                                    zarrFormat, chunkKeyEncoding, shardShape);
     }
 
-- 
2.43.0


From 615b0debb7ddf30055976293c56fb1f149d67077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 14/46] fix: fill values out of range of an integer data type
 were undefined behaviour, and zarr v2 stored them as floats

---
 include/z5/dataset.hxx     |  2 +-
 include/z5/metadata.hxx    | 68 +++++++++++++++++++++++++-------------
 include/z5/types/types.hxx | 23 +++++++++++++
 3 files changed, 69 insertions(+), 24 deletions(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 5e241b1..4671907 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -173,7 +173,7 @@ namespace z5 {
     template<class T>
     class MixinTyped {
     public:
-        MixinTyped(const DatasetMetadata & metadata) : fillValue_(static_cast<T>(metadata.fillValue)) {
+        MixinTyped(const DatasetMetadata & metadata) : fillValue_(types::castFillValue<T>(metadata.fillValue)) {
             init_compressor(metadata);
         }
         ~MixinTyped(){}
diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 14c2662..f101e6a 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -59,6 +59,7 @@ namespace z5 {
         {
             checkShapes();
             checkChunkKeys();
+            checkFillValue();
         }
 
 
@@ -97,6 +98,7 @@ namespace z5 {
             }
             checkShapes();
             checkChunkKeys();
+            checkFillValue();
         }
 
     private:
@@ -110,13 +112,7 @@ namespace z5 {
             j["shape"] = shape;
             j["chunks"] = chunkShape;
 
-            if (std::isnan(fillValue)) {
-              j["fill_value"] = "NaN";
-            } else if (std::isinf(fillValue)) {
-              j["fill_value"] = fillValue > 0 ? "Infinity" : "-Infinity";
-            } else {
-              j["fill_value"] = fillValue;
-            }
+            fillValueToJson(j);
 
             j["filters"] = nullptr;
             j["order"] = "C";
@@ -124,6 +120,24 @@ namespace z5 {
             j["dimension_separator"] = zarrDelimiter;
         }
 
+        void fillValueToJson(nlohmann::json & j) const {
+            if(std::isnan(fillValue)) {
+                j["fill_value"] = "NaN";
+            } else if(std::isinf(fillValue)) {
+                j["fill_value"] = fillValue > 0 ? "Infinity" : "-Infinity";
+            } else {
+                // zarr expects an integer fill_value for integer data types
+                switch(dtype) {
+                    case types::int8: case types::int16: case types::int32: case types::int64:
+                        j["fill_value"] = types::castFillValue<int64_t>(fillValue); break;
+                    case types::uint8: case types::uint16: case types::uint32: case types::uint64:
+                        j["fill_value"] = types::castFillValue<uint64_t>(fillValue); break;
+                    default:
+                        j["fill_value"] = fillValue;
+                }
+            }
+        }
+
         void toJsonN5(nlohmann::json & j) const {
 
             // N5-Axis order: we need to reverse the shape when writing to metadata
@@ -165,7 +179,8 @@ namespace z5 {
                     throw std::runtime_error("Invalid string value for fillValue");
                 }
             } else if(fillValJson.type() == nlohmann::json::value_t::null) {
-                fillValue = std::numeric_limits<double>::quiet_NaN();
+                // the fill value is undefined
+                fillValue = types::isInteger(dtype) ? 0 : std::numeric_limits<double>::quiet_NaN();
             } else {
                 fillValue = static_cast<double>(fillValJson);
             }
@@ -267,21 +282,7 @@ namespace z5 {
             j["chunk_key_encoding"]["name"] = chunkKeyEncoding;
             j["chunk_key_encoding"]["configuration"]["separator"] = zarrDelimiter;
 
-            if(std::isnan(fillValue)) {
-                j["fill_value"] = "NaN";
-            } else if(std::isinf(fillValue)) {
-                j["fill_value"] = fillValue > 0 ? "Infinity" : "-Infinity";
-            } else {
-                // zarr v3 expects an integer fill_value for integer data types
-                switch(dtype) {
-                    case types::int8: case types::int16: case types::int32: case types::int64:
-                        j["fill_value"] = static_cast<int64_t>(fillValue); break;
-                    case types::uint8: case types::uint16: case types::uint32: case types::uint64:
-                        j["fill_value"] = static_cast<uint64_t>(fillValue); break;
-                    default:
-                        j["fill_value"] = fillValue;
-                }
-            }
+            fillValueToJson(j);
 
             nlohmann::json innerCodecs;
             types::writeV3CodecsToJson(compressor, compressionOptions,
@@ -448,6 +449,27 @@ namespace z5 {
         }
 
 
+        // make sure that the data type can represent the fill value
+        void checkFillValue() {
+            double low, high;
+            switch(dtype) {
+                case types::int8: low = std::numeric_limits<int8_t>::min(); high = std::numeric_limits<int8_t>::max(); break;
+                case types::int16: low = std::numeric_limits<int16_t>::min(); high = std::numeric_limits<int16_t>::max(); break;
+                case types::int32: low = std::numeric_limits<int32_t>::min(); high = std::numeric_limits<int32_t>::max(); break;
+                case types::int64: low = -std::ldexp(1., 63); high = std::ldexp(1., 63); break;
+                case types::uint8: low = 0; high = std::numeric_limits<uint8_t>::max(); break;
+                case types::uint16: low = 0; high = std::numeric_limits<uint16_t>::max(); break;
+                case types::uint32: low = 0; high = std::numeric_limits<uint32_t>::max(); break;
+                case types::uint64: low = 0; high = std::ldexp(1., 64); break;
+                default: return;
+            }
+            // NOTE the comparison fails for nan
+            if(!(fillValue >= low && fillValue <= high) || std::floor(fillValue) != fillValue) {
+                throw std::runtime_error("The fill value can not be represented by the data type");
+            }
+        }
+
+
         // make sure that the sharding codec is used in the way that z5 supports:
         // as the only codec, with a little endian and crc32c checked index at the end
         void checkShardingConfiguration(const nlohmann::json & codecs,
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 8f3ad8e..fb7d5c8 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -1,6 +1,9 @@
 #pragma once
 
+#include <cmath>
 #include <iostream>
+#include <limits>
+#include <type_traits>
 #include <vector>
 #include <string>
 #include <map>
@@ -456,6 +459,26 @@ namespace types {
         }
     }
 
+    // cast the fill value to the data type; the largest 64 bit integers are rounded
+    // up to a double that is just out of range
+    template<class T>
+    inline T castFillValue(const double fillValue) {
+        if constexpr(std::is_integral_v<T>) {
+            if(fillValue >= std::ldexp(1., std::numeric_limits<T>::digits)) {
+                return std::numeric_limits<T>::max();
+            }
+        }
+        return static_cast<T>(fillValue);
+    }
+
+    inline bool isInteger(Datatype dt) {
+        switch(dt) {
+            case int8: case int16: case int32: case int64:
+            case uint8: case uint16: case uint32: case uint64: return true;
+            default: return false;
+        }
+    }
+
     inline std::string bloscShuffleToString(int s) {
         return s == 0 ? "noshuffle" : (s == 2 ? "bitshuffle" : "shuffle");
     }
-- 
2.43.0


From 6add48a91b5930b493d4885a414b25b9aba70f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 15/46] fix: the blosc level passed as clevel was ignored, and
 reported blosc options could not be passed back

---
 src/python/module/z5py/dataset.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 6a4c245..bacc820 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -106,10 +106,22 @@ class Dataset:
             arr = arr.astype(dtype, copy=False)
         return arr
 
+    @staticmethod
+    def _to_blosc_options(compression_options):
+        # the level can be given under the name of the metadata ('clevel') or under
+        # the name that is reported by compression_opts ('level')
+        options = dict(compression_options)
+        if 'clevel' in options:
+            if 'level' in options:
+                raise RuntimeError("Only one of clevel and level can be given for blosc compression")
+            options['level'] = options.pop('clevel')
+        return options
+
     @staticmethod
     def _to_zarr_compression_options(compression, compression_options):
         if compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'clevel': 5, 'shuffle': 1, 'blocksize': 0}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
+            compression_options = Dataset._to_blosc_options(compression_options)
         elif compression == 'zlib':
             default_opts = {'id': 'zlib', 'level': 5}
         elif compression == 'gzip':
@@ -144,7 +156,8 @@ class Dataset:
         # toJsonV3 turns them into the on-disk v3 codec configuration. NOTE: gzip
         # must set useZlib=False so the zlib compressor emits a gzip wrapper.
         if compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
+            compression_options = Dataset._to_blosc_options(compression_options)
         elif compression == 'gzip':
             default_opts = {'level': 5, 'useZlib': False}
         elif compression == 'zstd':
@@ -178,7 +191,8 @@ class Dataset:
         elif compression == 'lz4':
             default_opts = {'level': 6}
         elif compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'clevel': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
+            compression_options = Dataset._to_blosc_options(compression_options)
         elif compression == 'zstd':
             default_opts = {'level': 3}
         else:
-- 
2.43.0


From 462f02b8afa1a8c9765b05cb63dae6705b3556a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 16/46] fix: chunks that contain only a nan fill value were
 stored

---
 include/z5/util/format_data.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 6f9606c..53899df 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -115,7 +115,10 @@ namespace util {
             // we need the temporary reference to capture in the lambda
             const bool isEmpty = std::all_of(static_cast<const T*>(dataIn),
                                              static_cast<const T*>(dataIn) + chunkSize,
-                                             [fillValue](const T val){return val == fillValue;});
+                                             // NOTE nan is the only value that is not equal to itself
+                                             [fillValue](const T val){
+                                                 return val == fillValue || (val != val && fillValue != fillValue);
+                                             });
             // return false if the chunk is empty
             if(isEmpty) {
                 return false;
-- 
2.43.0


From 9d5e98d24b041b93cb9ba1f6b5dc4775efffd7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 17/46] fix: requests near the integer limits overflowed the
 range check

---
 include/z5/dataset.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 4671907..29ea2cc 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -49,7 +49,8 @@ namespace z5 {
                 throw std::runtime_error("Request has wrong dimension");
             }
             for(int d = 0; d < shape_.size(); ++d) {
-                if(offset[d] + shape[d] > shape_[d]) {
+                // NOTE offset + shape can overflow
+                if(shape[d] > shape_[d] || offset[d] > shape_[d] - shape[d]) {
                     throw std::runtime_error(
                         "Request is out of range: " + std::to_string(offset[d]) + " + " +
                         std::to_string(shape[d]) + " > " + std::to_string(shape_[d]) +
-- 
2.43.0


From 81d4484816a8cd7b5d4bdb2a45d9cb443276dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 18/46] fix: chunk ids and regions with the wrong number of
 dimensions were read out of bounds

---
 include/z5/handle.hxx        |  3 +++
 include/z5/util/sharding.hxx |  4 ++++
 src/python/lib/dataset.cxx   | 12 ++++++++++++
 3 files changed, 19 insertions(+)

diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 5e08656..c6bdb5f 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -221,6 +221,9 @@ namespace handle {
         // compute the chunk shape, clipped if overhanging the boundary
         inline types::ShapeType computeBoundedShape() const {
             const int ndim = defaultShape_.size();
+            if(chunkIndices_.size() != ndim) {
+                throw std::runtime_error("Chunk indices have wrong dimension");
+            }
             types::ShapeType out(ndim);
             for(int d = 0; d < ndim; ++d) {
                 out[d] = ((chunkIndices_[d] + 1) * defaultShape_[d] <= datasetShape_[d]) ? defaultShape_[d] :
diff --git a/include/z5/util/sharding.hxx b/include/z5/util/sharding.hxx
index d4fc63d..3f1adea 100644
--- a/include/z5/util/sharding.hxx
+++ b/include/z5/util/sharding.hxx
@@ -4,6 +4,7 @@
 #include <functional>
 #include <limits>
 #include <numeric>
+#include <stdexcept>
 #include <vector>
 
 #include "z5/types/types.hxx"
@@ -55,6 +56,9 @@ namespace util {
     // outer shard id of an inner chunk id
     inline types::ShapeType shardId(const types::ShapeType & innerId,
                                     const types::ShapeType & cps) {
+        if(innerId.size() != cps.size()) {
+            throw std::runtime_error("Chunk indices have wrong dimension");
+        }
         types::ShapeType sid(innerId.size());
         for(std::size_t d = 0; d < innerId.size(); ++d) {
             sid[d] = innerId[d] / cps[d];
diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index 96ade26..ce99f99 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -48,11 +48,20 @@ namespace z5 {
     }
 
 
+    // the roi is passed on as iterators that are read up to the dataset's dimension
+    inline void checkRoiDimension(const Dataset & ds, const std::vector<std::size_t> & roi) {
+        if(roi.size() != ds.dimension()) {
+            throw std::runtime_error("Request has wrong dimension");
+        }
+    }
+
+
     template<class T>
     inline void writePySubarray(const Dataset & ds,
                                 const nb::ndarray<nb::numpy, const T, nb::c_contig> in,
                                 const std::vector<std::size_t> & roiBegin,
                                 const int numberOfThreads) {
+        checkRoiDimension(ds, roiBegin);
         const auto view = constViewFromArray<T>(in);
         multiarray::writeSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
@@ -63,6 +72,7 @@ namespace z5 {
                                nb::ndarray<nb::numpy, T, nb::c_contig> out,
                                const std::vector<std::size_t> & roiBegin,
                                const int numberOfThreads) {
+        checkRoiDimension(ds, roiBegin);
         const auto view = viewFromArray<T>(out);
         multiarray::readSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
@@ -74,6 +84,8 @@ namespace z5 {
                               const std::vector<std::size_t> & roiShape,
                               const T val,
                               const int numberOfThreads) {
+        checkRoiDimension(ds, roiBegin);
+        checkRoiDimension(ds, roiShape);
         multiarray::writeScalar<T>(ds, roiBegin.begin(), roiShape.begin(), val, numberOfThreads);
     }
 
-- 
2.43.0


From 974a38c10fb894d2ab4deb390c06c04e16fa7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:10 +0000
Subject: [PATCH 19/46] fix: the shape of a chunk out of range was computed
 from wrapped numbers

---
 include/z5/generic/dataset.hxx         | 3 +++
 include/z5/generic/sharded_dataset.hxx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/z5/generic/dataset.hxx b/include/z5/generic/dataset.hxx
index bce806b..ab02f9e 100644
--- a/include/z5/generic/dataset.hxx
+++ b/include/z5/generic/dataset.hxx
@@ -113,6 +113,7 @@ namespace generic {
 
         inline std::size_t getChunkSize(const types::ShapeType & chunkId) const {
             ChunkHandleType chunk(handle_, chunkId, defaultChunkShape(), shape());
+            checkChunk(chunk);
             return chunk.size();
         }
 
@@ -121,6 +122,7 @@ namespace generic {
                                   types::ShapeType & chunkShape,
                                   const bool fromHeader=false) const {
             ChunkHandleType chunk(handle_, chunkId, defaultChunkShape(), shape());
+            checkChunk(chunk);
             if constexpr(STORE::supportsN5HeaderIO) {
                 if(!isZarr_ && fromHeader) {
                     STORE::readShapeFromHeader(chunk, chunkShape);
@@ -137,6 +139,7 @@ namespace generic {
                                          const unsigned dim,
                                          const bool fromHeader=false) const {
             ChunkHandleType chunk(handle_, chunkId, defaultChunkShape(), shape());
+            checkChunk(chunk);
             if constexpr(STORE::supportsN5HeaderIO) {
                 if(!isZarr_ && fromHeader) {
                     types::ShapeType chunkShape;
diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 5a60199..71bdb1e 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -107,6 +107,7 @@ namespace generic {
             // element count of the (bounded) chunk, like the plain datasets --
             // NOT the compressed byte count of the shard slot
             ChunkHandleType chunk(handle_, chunkId, defaultChunkShape(), shape());
+            checkChunk(chunk);
             return chunk.size();
         }
 
@@ -114,6 +115,7 @@ namespace generic {
                                   types::ShapeType & chunkShape,
                                   const bool fromHeader=false) const {
             ChunkHandleType chunk(handle_, chunkId, defaultChunkShape(), shape());
+            checkChunk(chunk);
             const auto & cshape = chunk.shape();
             chunkShape.resize(cshape.size());
             std::copy(cshape.begin(), cshape.end(), chunkShape.begin());
@@ -123,6 +125,7 @@ namespace generic {
                                          const unsigned dim,
                                          const bool fromHeader=false) const {
             ChunkHandleType chunk(handle_, chunkId, defaultChunkShape(), shape());
+            checkChunk(chunk);
             return chunk.shape()[dim];
         }
 
-- 
2.43.0


From 23d28a09915e972ac41d35525d556fe7024cf042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 20/46] fix: n5 chunks whose header has another size overflowed
 the read buffer, and short raw chunks were read as stale data

The size in the header of a chunk (also of a varlen chunk in a partial write) was not compared
with the size of the buffer, truncated headers were used uninitialised, and a raw chunk shorter than
expected left the rest of the reused buffer as it was.
---
 include/z5/filesystem/store.hxx        | 24 ++++++++++++++++++------
 include/z5/multiarray/array_access.hxx |  9 ++++++++-
 include/z5/util/format_data.hxx        | 16 ++++++++++++++--
 3 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 02de523..75f99b0 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -99,24 +99,33 @@ namespace store_detail {
             std::ifstream file(chunk.path(), std::ios::binary);
 
             // read the mode
-            uint16_t mode;
+            uint16_t mode = 0;
             file.read((char *) &mode, 2);
+            if(!file.good()) {
+                throw std::runtime_error("z5: invalid n5 chunk: truncated header: " + chunk.path().string());
+            }
             util::reverseEndiannessInplace(mode);
 
             if(mode == 0) {
                 return false;
             }
+            if(mode > 1) {
+                throw std::runtime_error("z5: invalid n5 chunk: unsupported mode " + std::to_string(mode));
+            }
 
             // read the number of dimensions
-            uint16_t ndim;
+            uint16_t ndim = 0;
             file.read((char *) &ndim, 2);
             util::reverseEndiannessInplace(ndim);
 
             // advance the file by ndim * 4 to skip the shape
             file.seekg((ndim + 1) * 4);
 
-            uint32_t varlength;
+            uint32_t varlength = 0;
             file.read((char*) &varlength, 4);
+            if(!file.good()) {
+                throw std::runtime_error("z5: invalid n5 chunk: truncated header: " + chunk.path().string());
+            }
             util::reverseEndiannessInplace(varlength);
             chunkSize = varlength;
 
@@ -133,15 +142,18 @@ namespace store_detail {
             file.seekg(2);
 
             // read the number of dimensions
-            uint16_t ndim;
+            uint16_t ndim = 0;
             file.read((char *) &ndim, 2);
             util::reverseEndiannessInplace(ndim);
 
             // read temporary shape with uint32 entries
-            std::vector<uint32_t> shapeTmp(ndim);
-            for(int d = 0; d < ndim; ++d) {
+            std::vector<uint32_t> shapeTmp(file.good() ? ndim : 0);
+            for(std::size_t d = 0; d < shapeTmp.size(); ++d) {
                 file.read((char *) &shapeTmp[d], 4);
             }
+            if(!file.good() || ndim != chunk.shape().size()) {
+                throw std::runtime_error("z5: invalid n5 chunk: truncated or inconsistent header: " + chunk.path().string());
+            }
             util::reverseEndiannessInplace<uint32_t>(shapeTmp.begin(), shapeTmp.end());
 
             // N5-Axis order: we need to reverse the chunk shape read from the header
diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 70f426c..5cd41f9 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -129,6 +129,9 @@ namespace multiarray {
             // edge chunk stored at full size (zarr) -> use the default chunk shape; the
             // leading block of the buffer holds the valid data.
             if(chunkStoreSize != chunkSize) {
+                if(chunkStoreSize != maxChunkSize) {
+                    throw std::runtime_error("z5: n5 chunk does not have the expected size");
+                }
                 chunkSize = maxChunkSize;
                 chunkShape = maxChunkShape;
             }
@@ -277,10 +280,14 @@ namespace multiarray {
                                            if(!ds.chunkExists(chunkId)) {
                                                return false;
                                            }
-                                           if(ds.readChunk(chunkId, &buf[0])) {
+                                           // check this before reading: a varlen chunk may hold
+                                           // more elements than the buffer
+                                           std::size_t varlenSize;
+                                           if(!isZarr && ds.checkVarlenChunk(chunkId, varlenSize)) {
                                                throw std::runtime_error(
                                                    "Can't write to varlen chunks from multiarray");
                                            }
+                                           ds.readChunk(chunkId, &buf[0]);
                                            return true;
                                        });
             ds.writeChunk(chunkId, &buffer[0]);
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 53899df..f369277 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -146,11 +146,14 @@ namespace util {
                            const std::size_t data_size, const COMPRESSOR & compressor) {
         // we don't need to decompress for raw compression
         if(compressor->type() == 0) {
-            // bound the copy by the output capacity: a corrupt chunk (or corrupt shard
-            // slot length) must not overflow the caller's buffer
+            // the size must match exactly: a corrupt chunk (or corrupt shard slot length)
+            // must neither overflow the caller's buffer nor leave a part of it unset
             if(nBytes > data_size * sizeof(T)) {
                 throw std::runtime_error("z5: raw chunk is larger than the expected chunk size");
             }
+            if(nBytes < data_size * sizeof(T)) {
+                throw std::runtime_error("z5: raw chunk is smaller than the expected chunk size");
+            }
             // mem-copy the binary data that was read to typed out data
             memcpy((T*) dataOut, buffer, nBytes);
         } else {
@@ -189,6 +192,10 @@ namespace util {
         memcpy(&ndim, &buffer[2], 2);
         util::reverseEndiannessInplace(ndim);
 
+        // 0: default, 1: varlength; mode 2 (serialized objects) is not supported
+        if(mode > 1) {
+            throw std::runtime_error("z5: invalid n5 chunk: unsupported mode " + std::to_string(mode));
+        }
         const bool is_varlen = mode == 1;
         const std::size_t fullHeaderLen = (ndim + 1) * 4 + (is_varlen ? 4 : 0);
         if(buffer.size() < fullHeaderLen) {
@@ -237,6 +244,11 @@ namespace util {
 
         if(!is_zarr) {
             is_varlen = read_n5_header(buffer, chunk_size, header_length);
+            // the output is only as large as the (bounded) chunk: a header that claims
+            // another size must not overflow it or leave parts of it unset
+            if(!is_varlen && chunk_size != chunk.size()) {
+                throw std::runtime_error("z5: n5 chunk does not have the expected size");
+            }
         }
 
         // decode straight past the header (no copy / memmove of the payload)
-- 
2.43.0


From d49abb67a16a45c4c71eb3430bec205901be1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 21/46] fix: compressed chunks that decode to fewer bytes than
 expected were returned as partly stale data

---
 include/z5/compression/blosc_compressor.hxx | 14 ++++++++++++--
 include/z5/compression/bzip2_compressor.hxx |  2 ++
 include/z5/compression/compressor_base.hxx  | 13 +++++++++++++
 include/z5/compression/lz4_compressor.hxx   |  2 ++
 include/z5/compression/xz_compressor.hxx    |  2 ++
 include/z5/compression/zlib_compressor.hxx  |  7 ++++---
 include/z5/compression/zstd_compressor.hxx  |  2 ++
 7 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/include/z5/compression/blosc_compressor.hxx b/include/z5/compression/blosc_compressor.hxx
index 716bf5f..948c268 100644
--- a/include/z5/compression/blosc_compressor.hxx
+++ b/include/z5/compression/blosc_compressor.hxx
@@ -16,6 +16,7 @@ namespace compression {
         // the override of the virtual decompress hides the base class'
         // std::vector overload; re-expose the full overload set
         using CompressorBase<T>::decompress;
+        using CompressorBase<T>::checkDecompressedSize;
 
         BloscCompressor(const DatasetMetadata & metadata) {
             init(metadata);
@@ -47,9 +48,17 @@ namespace compression {
             dataOut.resize(sizeCompressed);
         }
 
-        void decompress(const char * dataIn, std::size_t, T * dataOut, std::size_t sizeOut) const {
+        void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
-            // decompress the data (blosc reads the compressed length from its own header)
+            // blosc reads the compressed length from its own header, so make sure that the
+            // header agrees with the number of bytes there are and that are expected
+            std::size_t sizeHeader = 0;
+            if(blosc_cbuffer_validate(dataIn, nBytesIn, &sizeHeader) < 0) {
+                throw std::runtime_error("Blosc decompression failed: invalid header");
+            }
+            checkDecompressedSize(sizeHeader, sizeOut * sizeof(T));
+
+            // decompress the data
             int sizeDecompressed = blosc_decompress_ctx(
                 dataIn, dataOut,
                 sizeOut * sizeof(T),
@@ -60,6 +69,7 @@ namespace compression {
             if(sizeDecompressed <= 0) {
                 throw std::runtime_error("Blosc decompression failed");
             }
+            checkDecompressedSize(sizeDecompressed, sizeOut * sizeof(T));
         }
 
         inline types::Compressor type() const {
diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index d80203c..d563d29 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -18,6 +18,7 @@ namespace compression {
         // the override of the virtual decompress hides the base class'
         // std::vector overload; re-expose the full overload set
         using CompressorBase<T>::decompress;
+        using CompressorBase<T>::checkDecompressedSize;
 
         Bzip2Compressor(const DatasetMetadata & metadata) {
             init(metadata);
@@ -95,6 +96,7 @@ namespace compression {
                 std::string err = "Exception during bzip decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
             }
+            checkDecompressedSize(sizeOut * sizeof(T) - bzs.avail_out, sizeOut * sizeof(T));
 
 		}
 
diff --git a/include/z5/compression/compressor_base.hxx b/include/z5/compression/compressor_base.hxx
index 6ae533e..7539cce 100644
--- a/include/z5/compression/compressor_base.hxx
+++ b/include/z5/compression/compressor_base.hxx
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include "z5/types/types.hxx"
 
@@ -28,6 +30,17 @@ namespace compression {
         }
         virtual types::Compressor type() const = 0;
         virtual void getOptions(types::CompressionOptions &) const = 0;
+
+    protected:
+        // a chunk that decodes to another number of bytes than expected is corrupt;
+        // the rest of the output would hold whatever was in the buffer before
+        static inline void checkDecompressedSize(const std::size_t nBytes,
+                                                 const std::size_t nBytesExpected) {
+            if(nBytes != nBytesExpected) {
+                throw std::runtime_error("z5: chunk decompresses to " + std::to_string(nBytes) +
+                                         " bytes instead of " + std::to_string(nBytesExpected));
+            }
+        }
     };
 
 
diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 1cefe94..14fbf99 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -19,6 +19,7 @@ namespace compression {
         // the override of the virtual decompress hides the base class'
         // std::vector overload; re-expose the full overload set
         using CompressorBase<T>::decompress;
+        using CompressorBase<T>::checkDecompressedSize;
 
         Lz4Compressor(const DatasetMetadata & metadata) {
             init(metadata);
@@ -52,6 +53,7 @@ namespace compression {
                 std::string err = "Exception during lz4 decompression: (" + std::to_string(compressed)  + ")";
     		    throw std::runtime_error(err);
             }
+            checkDecompressedSize(compressed, sizeOut * sizeof(T));
 		}
 
         inline types::Compressor type() const {
diff --git a/include/z5/compression/xz_compressor.hxx b/include/z5/compression/xz_compressor.hxx
index 4ecb92c..9b7beb1 100644
--- a/include/z5/compression/xz_compressor.hxx
+++ b/include/z5/compression/xz_compressor.hxx
@@ -24,6 +24,7 @@ namespace compression {
         // the override of the virtual decompress hides the base class'
         // std::vector overload; re-expose the full overload set
         using CompressorBase<T>::decompress;
+        using CompressorBase<T>::checkDecompressedSize;
 
         XzCompressor(const DatasetMetadata & metadata) {
             init(metadata);
@@ -128,6 +129,7 @@ namespace compression {
                 std::string err = "Exception during xz decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
             }
+            checkDecompressedSize(lzs.total_out, sizeOut * sizeof(T));
 		}
 
         inline types::Compressor type() const {
diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 74579f0..8e2cf2f 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -34,6 +34,7 @@ namespace compression {
         // the override of the virtual decompress hides the base class'
         // std::vector overload; re-expose the full overload set
         using CompressorBase<T>::decompress;
+        using CompressorBase<T>::checkDecompressedSize;
 
         ZlibCompressor(const DatasetMetadata & metadata) {
             init(metadata);
@@ -99,9 +100,7 @@ namespace compression {
             }
 
             // Pick the wrapper from the metadata flag (zlib for zarr-v2 "zlib", gzip
-            // for n5 / zarr-v2 "gzip" / zarr-v3). Pass a non-null actual-size pointer so
-            // that, like the previous zlib code, a stream decoding to fewer than the
-            // expected bytes still succeeds (only an overflow is an error).
+            // for n5 / zarr-v2 "gzip" / zarr-v3). The actual size is checked below.
             std::size_t actualOut = 0;
             libdeflate_result res = useZlibEncoding_ ?
                 libdeflate_zlib_decompress(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes, &actualOut) :
@@ -121,6 +120,7 @@ namespace compression {
             if(res != LIBDEFLATE_SUCCESS) {
                 throw std::runtime_error("z5: libdeflate decompression failed (" + std::to_string((int) res) + ")");
             }
+            checkDecompressedSize(actualOut, sizeOutBytes);
         }
 
 #else // WITH_LIBDEFLATE -- stock zlib backend
@@ -209,6 +209,7 @@ namespace compression {
                 std::string err = "Exception during zlib decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
     		}
+            checkDecompressedSize(zs.total_out, sizeOut * sizeof(T));
 		}
 
 #endif // WITH_LIBDEFLATE
diff --git a/include/z5/compression/zstd_compressor.hxx b/include/z5/compression/zstd_compressor.hxx
index a1238cf..bd69c5a 100644
--- a/include/z5/compression/zstd_compressor.hxx
+++ b/include/z5/compression/zstd_compressor.hxx
@@ -18,6 +18,7 @@ namespace compression {
         // the override of the virtual decompress hides the base class'
         // std::vector overload; re-expose the full overload set
         using CompressorBase<T>::decompress;
+        using CompressorBase<T>::checkDecompressedSize;
 
         ZstdCompressor(const DatasetMetadata & metadata) {
             init(metadata);
@@ -50,6 +51,7 @@ namespace compression {
                                  std::string(ZSTD_getErrorName(decompressed));
                 throw std::runtime_error(err);
             }
+            checkDecompressedSize(decompressed, sizeOut * sizeof(T));
 		}
 
         inline types::Compressor type() const {
-- 
2.43.0


From b8d8c500890f898c4e1b5ded0c50637978d4fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 22/46] fix: reading a missing chunk of a sharded dataset
 decoded an empty buffer instead of raising

---
 include/z5/generic/sharded_dataset.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 71bdb1e..59438b7 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -68,6 +68,9 @@ namespace generic {
         inline bool readChunk(const types::ShapeType & chunkIndices, void * dataOut) const {
             std::vector<char> buffer;
             readRawChunk(chunkIndices, buffer);
+            if(buffer.empty()) {
+                throw std::runtime_error("Trying to read a chunk that does not exist");
+            }
             util::decompress<T>(buffer, dataOut, defaultChunkSize(), Mixin::compressor_);
             return false;  // no varlen in zarr v3
         }
-- 
2.43.0


From 8c4f338f12acfda2ffb4aeceef7ef7556b4663a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 23/46] fix: unique values counted the padding of zarr edge
 chunks, and chunks with a leading nan were removed as trivial

---
 include/z5/util/functions.hxx | 68 ++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 9 deletions(-)

diff --git a/include/z5/util/functions.hxx b/include/z5/util/functions.hxx
index 367456c..53da8db 100644
--- a/include/z5/util/functions.hxx
+++ b/include/z5/util/functions.hxx
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <algorithm>
+#include <map>
+#include <set>
+
 #include "z5/common.hxx"
 #include "z5/util/for_each.hxx"
 
@@ -26,6 +30,52 @@ namespace util {
     }
 
 
+    // Read the chunk and reduce it to the elements inside of the array: zarr edge chunks
+    // are stored padded, and the padding must not contribute to the values.
+    template<class T>
+    inline std::size_t readChunkInBounds(const Dataset & ds,
+                                         const types::ShapeType & chunk,
+                                         std::vector<T> & data) {
+        const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
+        if(ds.readChunk(chunk, &data[0]) || !ds.isZarr()) {
+            return dataSize;
+        }
+        types::ShapeType shape;
+        ds.getChunkShape(chunk, shape);
+        const auto & fullShape = ds.defaultChunkShape();
+        if(shape == fullShape) {
+            return dataSize;
+        }
+        // move the rows (along the last axis) of the leading block to the front;
+        // the destination is never behind the source
+        const std::size_t ndim = shape.size();
+        const std::size_t rowLen = shape[ndim - 1];
+        types::ShapeType pos(ndim, 0);
+        std::size_t nData = 0;
+        while(true) {
+            std::size_t offset = 0;
+            for(std::size_t d = 0; d < ndim; ++d) {
+                offset = offset * fullShape[d] + pos[d];
+            }
+            if(offset != nData) {
+                std::copy(data.begin() + offset, data.begin() + offset + rowLen, data.begin() + nData);
+            }
+            nData += rowLen;
+            // advance to the next row
+            int d = static_cast<int>(ndim) - 2;
+            for(; d >= 0; --d) {
+                if(++pos[d] < shape[d]) {
+                    break;
+                }
+                pos[d] = 0;
+            }
+            if(d < 0) {
+                return nData;
+            }
+        }
+    }
+
+
     // remove chunks which contain only a single value
     // -> this is often some background value, that might`
     // be different from the global background value
@@ -48,11 +98,13 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
-            // check vector for number of uniques and if we only have a single unique, remove it
-            const auto uniques = std::set<T>(data.begin(), data.begin() + dataSize);
-            const bool remove = (uniques.size() == 1) ? (removeSpecificValue ? (*uniques.begin() == value ? true : false) : true) : false;
+            const std::size_t dataSize = readChunkInBounds(ds, chunk, data);
+            // check if all values are the same (NOTE nan is not ordered, so it must not go into a set)
+            const T first = data[0];
+            const bool isTrivial = std::all_of(data.begin(), data.begin() + dataSize, [first](const T val){
+                return val == first || (val != val && first != first);
+            });
+            const bool remove = dataSize > 0 && isTrivial && (!removeSpecificValue || first == value);
             if(remove) {
                 ds.removeChunk(chunk);
             }
@@ -104,8 +156,7 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            const std::size_t dataSize = readChunkInBounds(ds, chunk, data);
             auto & threadSet = (tid == 0) ? uniques : threadData[tid - 1];
             threadSet.insert(data.begin(), data.begin() + dataSize);
         });
@@ -136,8 +187,7 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            const std::size_t dataSize = readChunkInBounds(ds, chunk, data);
             data.resize(dataSize);
             auto & threadMap = (tid == 0) ? uniques : threadData[tid - 1];
             for(const T val : data) {
-- 
2.43.0


From f505b851e52b1ca537b1519355013b1813254905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 24/46] fix: failed writes of chunks, metadata and attributes
 were not always reported, and destroyed the previous content

Errors that only show when the buffered stream is closed (no space left) were ignored for chunks, and
all errors for metadata and attributes; a failed attribute write left an n5 dataset without metadata, and
a failed shard write lost all other inner chunks of the shard. Write to a temporary file and rename it.
---
 include/z5/filesystem/attributes.hxx | 18 ++++++++----
 include/z5/filesystem/metadata.hxx   |  7 +++--
 include/z5/filesystem/store.hxx      | 42 ++++++++++++++++++++++++----
 3 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index 3a31197..e39d7f7 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -2,8 +2,10 @@
 
 #include <fstream>
 #include <iomanip>
+#include <sstream>
 
 #include "z5/filesystem/handle.hxx"
+#include "z5/filesystem/store.hxx"
 #include "z5/generic/attributes.hxx"
 
 
@@ -43,19 +45,23 @@ namespace attrs_detail {
 
         // compact serialization (zarr v2 '.zattrs', n5 'attributes.json')
         inline void write(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << j;
-            file.close();
+            std::ostringstream stream;
+            stream << j;
+            writeDocument(name, stream.str());
         }
 
         // pretty serialization (zarr.json and metadata files)
         inline void writePretty(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << std::setw(4) << j << std::endl;
-            file.close();
+            std::ostringstream stream;
+            stream << std::setw(4) << j << std::endl;
+            writeDocument(name, stream.str());
         }
 
     private:
+        inline void writeDocument(const std::string & name, const std::string & doc) const {
+            store_detail::writeFile(base_ / name, doc.data(), doc.size(), "metadata");
+        }
+
         fs::path base_;
     };
 
diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index dcab787..0d0b25d 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -10,9 +10,10 @@ namespace filesystem {
 namespace metadata_detail {
 
     inline void writeMetadata(const fs::path & path, const nlohmann::json & j) {
-        std::ofstream file(path);
-        file << std::setw(4) << j << std::endl;
-        file.close();
+        std::ostringstream stream;
+        stream << std::setw(4) << j << std::endl;
+        const std::string doc = stream.str();
+        store_detail::writeFile(path, doc.data(), doc.size(), "metadata");
     }
 
     inline void readMetadata(const fs::path & path, nlohmann::json & j) {
diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 75f99b0..c4cbd13 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -1,7 +1,14 @@
 #pragma once
 
+#include <atomic>
 #include <fstream>
 #include <ios>
+#include <string>
+#ifdef _WIN32
+#include <process.h>
+#else
+#include <unistd.h>
+#endif
 
 #include "z5/filesystem/handle.hxx"
 #include "z5/generic/store.hxx"
@@ -36,16 +43,39 @@ namespace store_detail {
         file.close();
     }
 
-    inline void writeFile(const fs::path & path, const std::vector<char> & buffer, const char * what) {
-        std::ofstream file(path, std::ios::binary);
+    // The data goes to a temporary file that then replaces the target: if it cannot be
+    // stored completely, the previous content (all other inner chunks of a shard, the
+    // metadata in an attributes file) survives.
+    inline void writeFile(const fs::path & path, const char * data, const std::size_t size, const char * what) {
+        // unique among the threads of this process and the processes on this machine
+        static std::atomic<std::size_t> counter(0);
+#ifdef _WIN32
+        const auto pid = ::_getpid();
+#else
+        const auto pid = ::getpid();
+#endif
+        const fs::path tmpPath = path.parent_path() / (".z5tmp-" + std::to_string(pid) + "-" +
+                                                       std::to_string(counter++));
+        std::ofstream file(tmpPath, std::ios::binary);
         if(!file.is_open()) {
             throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
         }
-        file.write(buffer.data(), buffer.size());
-        if(!file.good()) {
-            throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
-        }
+        file.write(data, size);
+        // the stream is buffered: errors may only show when it is flushed by close
         file.close();
+        std::error_code ec;
+        if(file.good()) {
+            fs::rename(tmpPath, path, ec);
+            if(!ec) {
+                return;
+            }
+        }
+        fs::remove(tmpPath, ec);
+        throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
+    }
+
+    inline void writeFile(const fs::path & path, const std::vector<char> & buffer, const char * what) {
+        writeFile(path, buffer.data(), buffer.size(), what);
     }
 
 }  // namespace store_detail
-- 
2.43.0


From 5ea52f05da3d97ba46177b6262d436123489b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 25/46] fix: deleting a missing attribute did not raise a
 KeyError

---
 src/python/module/z5py/attribute_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/module/z5py/attribute_manager.py b/src/python/module/z5py/attribute_manager.py
index 1ae15bc..12e47cc 100644
--- a/src/python/module/z5py/attribute_manager.py
+++ b/src/python/module/z5py/attribute_manager.py
@@ -83,7 +83,11 @@ class AttributeManager(MutableMapping):
         self._write_attributes({key: item})
 
     def __delitem__(self, key):
+        exists = key in self._read_attributes()
+        # refuses the reserved n5 dataset attributes
         _z5py.remove_attribute(self._handle, key)
+        if not exists:
+            raise KeyError(key)
 
     def update(self, *args, **kwargs):
         """ Update multiple attributes with a single read-modify-write.
-- 
2.43.0


From b3698ef14b27fbec8793a18b4926939e33ccf284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:18 +0000
Subject: [PATCH 26/46] fix: containers with a trailing slash were opened in n5
 format, and n5 versions with more than one digit were accepted

---
 src/python/module/z5py/file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 9192344..5c9ce6b 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -78,7 +78,8 @@ class File(Group):
         """
         # first, try to infer the format from the file ending
         is_zarr = None
-        _, ext = os.path.splitext(path)
+        # (without trailing separators, they hide the extension)
+        _, ext = os.path.splitext(path.rstrip('/' + os.sep))
         if ext.lower() in cls.zarr_exts:
             is_zarr = True
         elif ext.lower() in cls.n5_exts:
@@ -149,7 +150,7 @@ class File(Group):
         else:
             version = metadata.get('n5', None)
             if version is not None:
-                major_version = int(version[0])
+                major_version = int(version.split('.')[0])
                 if major_version > 4:
                     raise RuntimeError("Can't open n5 file with major version bigger than 4")
 
-- 
2.43.0


From da1e551fac35450e5b065aa1c81f91404ebe2ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 27/46] fix: concurrent array writes to different inner chunks
 of one shard lost data

Only the chunk-level writes held the shard mutex; writeSubarray and writeScalar calls from several
threads (the python bindings release the GIL) read, modified and wrote the same shard concurrently.
---
 include/z5/dataset.hxx                 |  3 +++
 include/z5/generic/sharded_dataset.hxx | 24 +++++++++++++++++-------
 include/z5/multiarray/array_access.hxx | 10 +++++++---
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 29ea2cc..133424c 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <memory>
+#include <mutex>
 
 #include "z5/metadata.hxx"
 #include "z5/handle.hxx"
@@ -112,6 +113,8 @@ namespace z5 {
         // build and write a shard from its per-slot blobs (removes the file if all empty)
         virtual void writeShardBlobs(const types::ShapeType &,
                                      const std::vector<std::vector<char>> &) const {}
+        // the mutex to hold during the read-modify-write of a shard; nullptr if not sharded
+        virtual std::mutex * shardMutex(const types::ShapeType &) const {return nullptr;}
         // compress one inner chunk to its on-disk blob; returns false if it is all-fill
         // (-> empty slot), in which case 'blob' is left empty
         virtual bool makeChunkBlob(const types::ShapeType &, const void *,
diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 59438b7..e4e5ff4 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <array>
 #include <mutex>
 
 #include "z5/dataset.hxx"
@@ -224,9 +225,9 @@ namespace generic {
         }
 
         // build & write a shard from its per-slot blobs (remove the object if all empty).
-        // NOTE: takes no lock itself; callers guarantee exclusivity for the shard object --
-        // the shard-aware writeSubarray path uses one task per shard, and writeInnerBlob
-        // (the direct per-chunk path) calls this while holding shardMutex_.
+        // NOTE: takes no lock itself; callers guarantee exclusivity for the shard object by
+        // holding its shardMutex during the whole read-modify-write (the shard-aware
+        // writeSubarray path and writeInnerBlob, the direct per-chunk path).
         inline void writeShardBlobs(const types::ShapeType & shardCoord,
                                     const std::vector<std::vector<char>> & blobs) const override {
             // single choke point for all sharded writes (writeChunk, removeChunk and
@@ -244,6 +245,15 @@ namespace generic {
             STORE::write(shardChunk, out, "shard");
         }
 
+        // the shards share a fixed number of mutexes
+        inline std::mutex * shardMutex(const types::ShapeType & shardCoord) const override {
+            std::size_t hash = 0;
+            for(const auto c : shardCoord) {
+                hash = hash * 31 + c;
+            }
+            return &shardMutexes_[hash % shardMutexes_.size()];
+        }
+
         // compress one inner chunk to its on-disk blob; false => all-fill (empty slot).
         inline bool makeChunkBlob(const types::ShapeType & chunkId, const void * dataIn,
                                   std::vector<char> & blob) const override {
@@ -289,14 +299,14 @@ namespace generic {
         }
 
         // replace one inner chunk's blob in its shard (read-modify-write). Serialized by
-        // shardMutex_ so concurrent direct writeChunk calls to the same shard are safe;
+        // the shardMutex so concurrent direct writeChunk calls to the same shard are safe;
         // the read + rebuild themselves are shared with the batched shard-aware path.
         inline void writeInnerBlob(const types::ShapeType & chunkId,
                                    std::vector<char> && blob,
                                    const bool nonEmpty) const {
-            std::lock_guard<std::mutex> lock(shardMutex_);
-
             const auto shardCoord = util::shardId(chunkId, chunksPerShard_);
+            std::lock_guard<std::mutex> lock(*shardMutex(shardCoord));
+
             const std::size_t slot = util::shardSlot(chunkId, chunksPerShard_);
 
             std::vector<std::vector<char>> blobs;
@@ -319,7 +329,7 @@ namespace generic {
         types::ShapeType shardShape_;
         types::ShapeType chunksPerShard_;
         std::size_t nSlots_;
-        mutable std::mutex shardMutex_;
+        mutable std::array<std::mutex, 64> shardMutexes_;
     };
 
 
diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 5cd41f9..717b7ed 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -315,8 +315,8 @@ namespace multiarray {
     // which read-modify-writes (and, for writes, locks) the whole shard -- so K inner
     // chunks in a shard cost K full shard reads/rebuilds and serialize. The paths below
     // instead group the request's inner chunks by shard, touch each shard file exactly
-    // once, and parallelize ACROSS shards (one task per shard, so no shard-level locking is
-    // needed within a call).
+    // once, and parallelize ACROSS shards (one task per shard). Writes hold the mutex of the
+    // shard: another thread may update other inner chunks of it at the same time.
 
     // group the inner-chunk requests by their shard; returns stable pointers into the map.
     inline void groupChunksByShard(
@@ -374,6 +374,10 @@ namespace multiarray {
                                 const types::ShapeType & shardCoord,
                                 const std::vector<types::ShapeType> & innerChunks) {
             auto & blobs = scratch.blobs;
+            std::unique_lock<std::mutex> lock;
+            if(auto * mutex = ds.shardMutex(shardCoord)) {
+                lock = std::unique_lock<std::mutex>(*mutex);
+            }
             ds.readShardBlobs(shardCoord, blobs);  // preserves untouched slots; cheap if absent
 
             types::ShapeType chunkShape;
@@ -402,7 +406,7 @@ namespace multiarray {
             ds.writeShardBlobs(shardCoord, blobs);
         };
 
-        // one task per shard (so each shard file has a single writer -> no lock needed)
+        // one task per shard
         forEachWithState(numberOfThreads, groups.size(),
                          [&]{ return Scratch{std::vector<T>(maxChunkSize, fillValue), {}, {}}; },
                          [&](Scratch & scratch, const std::size_t i){
-- 
2.43.0


From db5a41ef79bb8cc38882b5fee735e9c2f0131f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:29 +0000
Subject: [PATCH 28/46] fix: a zero in the chunk shape of a sharded dataset
 crashed with a division by zero

---
 include/z5/metadata.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index f101e6a..5cf4e4e 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -589,7 +589,7 @@ namespace z5 {
                 throw std::runtime_error("z5::createDatasetMetadata: shard shape and chunk shape dimension mismatch");
             }
             for(std::size_t d = 0; d < shardShape.size(); ++d) {
-                if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                if(chunkShape[d] == 0 || shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
                     throw std::runtime_error("z5::createDatasetMetadata: shard shape must be a multiple of the chunk shape");
                 }
             }
-- 
2.43.0


From 1254f6febdc1efdc45f4487624a4ca2d9870ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 29/46] fix: shards with more chunks than the index size can
 represent were accessed out of bounds

---
 include/z5/metadata.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 5cf4e4e..ccfb2bc 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -440,10 +440,17 @@ namespace z5 {
                 if(shardShape.size() != chunkShape.size()) {
                     throw std::runtime_error("Dimension of shards and chunks does not agree");
                 }
+                // the number of bytes in the shard index (16 per chunk) must be representable
+                std::size_t indexBytes = 16;
                 for(std::size_t d = 0; d < shardShape.size(); ++d) {
                     if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
                         throw std::runtime_error("The shard shape must be a multiple of the chunk shape");
                     }
+                    const std::size_t nChunks = shardShape[d] / chunkShape[d];
+                    if(indexBytes > (std::numeric_limits<std::size_t>::max() - 4) / nChunks) {
+                        throw std::runtime_error("The shard shape is too large");
+                    }
+                    indexBytes *= nChunks;
                 }
             }
         }
-- 
2.43.0


From 15c7443c8779e77b64cdcc226689a29bf1ad944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:52 +0000
Subject: [PATCH 30/46] fix: scalars that the data type can not represent were
 written as wrapped values

---
 src/python/module/z5py/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index bacc820..0058435 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -550,6 +550,8 @@ class Dataset:
 
         # broadcast scalar
         if isinstance(item, (numbers.Number, np.number)):
+            # convert like numpy, which raises for values that the dtype can't represent
+            item = np.asarray(item, self.dtype)[()]
             _z5py.write_scalar(self._impl, roi_begin,
                                list(shape), item,
                                str(self.dtype), self.n_threads)
-- 
2.43.0


From 59b73302c131f49141c159486b37f905c826db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:54 +0000
Subject: [PATCH 31/46] fix: write_direct wrote the whole source, whatever
 shape the destination selection had

---
 src/python/module/z5py/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 0058435..bc12e32 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -616,7 +616,11 @@ class Dataset:
         if source_sel is None:
             source_sel = tuple(slice(0, sh) for sh in source.shape)
         start = [s.start for s in dest_sel]
-        self.write_subarray(start, source[source_sel])
+        data = source[source_sel]
+        dest_shape = tuple((sh if s.stop is None else s.stop) - s.start for s, sh in zip(dest_sel, self.shape))
+        if data.shape != dest_shape:
+            raise ValueError("Selections do not have the same shape: %s vs %s" % (str(data.shape), str(dest_shape)))
+        self.write_subarray(start, data)
 
     # expose the impl write subarray functionality
     def write_subarray(self, start, data):
-- 
2.43.0


From fc042d2555ce420efd783741e50b8da709b1455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:01 +0000
Subject: [PATCH 32/46] fix: bzip2 and zlib dropped the data of chunks beyond 4
 GiB

---
 include/z5/compression/bzip2_compressor.hxx | 64 +++++++++++++++------
 include/z5/compression/zlib_compressor.hxx  | 58 +++++++++++--------
 2 files changed, 78 insertions(+), 44 deletions(-)

diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index d563d29..09d4ed8 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -2,6 +2,9 @@
 
 #ifdef WITH_BZIP2
 
+#include <algorithm>
+#include <limits>
+
 #include <bzlib.h>
 
 #include "z5/compression/compressor_base.hxx"
@@ -44,14 +47,24 @@ namespace compression {
                 throw(std::runtime_error("Initializing bzip compression failed"));
             }
 
-            // set the stream in-pointer to the input data and the input size
-            // to the size of the input in bytes
-            bzs.next_in = (char*) dataIn;
-            bzs.next_out = &dataOut[0];
-            bzs.avail_in = sizeIn * sizeof(T);
-            bzs.avail_out = outSize;
-
-            int ret = BZ2_bzCompress(&bzs, BZ_FINISH);
+            const std::size_t sizeInBytes = sizeIn * sizeof(T);
+            std::size_t posIn = 0, posOut = 0;
+
+            // the sizes in the bzip stream have only 32 bit, so that larger
+            // chunks need to be compressed in several steps
+            int ret;
+            do {
+                const std::size_t stepIn = std::min(sizeInBytes - posIn, maxStep);
+                const std::size_t stepOut = std::min(outSize - posOut, maxStep);
+                bzs.next_in = (char*) dataIn + posIn;
+                bzs.next_out = &dataOut[0] + posOut;
+                bzs.avail_in = stepIn;
+                bzs.avail_out = stepOut;
+
+                ret = BZ2_bzCompress(&bzs, posIn + stepIn < sizeInBytes ? BZ_RUN : BZ_FINISH);
+                posIn += stepIn - bzs.avail_in;
+                posOut += stepOut - bzs.avail_out;
+            } while((ret == BZ_RUN_OK || ret == BZ_FINISH_OK) && posOut < outSize);
             BZ2_bzCompressEnd(&bzs);
 
     		if (ret != BZ_STREAM_END) {          // an error occurred that was not EOF
@@ -60,8 +73,7 @@ namespace compression {
     		}
 
             // resize the output data
-            outSize -= bzs.avail_out;;
-            dataOut.resize(outSize);
+            dataOut.resize(posOut);
         }
 
 
@@ -82,21 +94,32 @@ namespace compression {
                 throw(std::runtime_error("Initializing bzip decompression failed"));
             }
 
-            // set the stream input to the beginning of the input data
-            bzs.next_in = (char *) dataIn;
-            bzs.next_out = reinterpret_cast<char *>(dataOut);
-
-            bzs.avail_in = nBytesIn;
-            bzs.avail_out = sizeOut * sizeof(T);
-
-            int ret = BZ2_bzDecompress(&bzs);
+            const std::size_t sizeOutBytes = sizeOut * sizeof(T);
+            std::size_t posIn = 0, posOut = 0;
+
+            // decompress in several steps if the sizes exceed the 32 bit of the bzip stream
+            int ret;
+            bool progress;
+            do {
+                const std::size_t stepIn = std::min(nBytesIn - posIn, maxStep);
+                const std::size_t stepOut = std::min(sizeOutBytes - posOut, maxStep);
+                bzs.next_in = (char *) dataIn + posIn;
+                bzs.next_out = reinterpret_cast<char *>(dataOut) + posOut;
+                bzs.avail_in = stepIn;
+                bzs.avail_out = stepOut;
+
+                ret = BZ2_bzDecompress(&bzs);
+                posIn += stepIn - bzs.avail_in;
+                posOut += stepOut - bzs.avail_out;
+                progress = bzs.avail_in < stepIn || bzs.avail_out < stepOut;
+            } while(ret == BZ_OK && progress);
             BZ2_bzDecompressEnd(&bzs);
 
             if(ret != BZ_STREAM_END) {
                 std::string err = "Exception during bzip decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
             }
-            checkDecompressedSize(sizeOut * sizeof(T) - bzs.avail_out, sizeOut * sizeof(T));
+            checkDecompressedSize(posOut, sizeOutBytes);
 
 		}
 
@@ -110,6 +133,9 @@ namespace compression {
 
 
     private:
+        // the largest number of bytes that is passed to the bzip stream at once
+        static constexpr std::size_t maxStep = std::numeric_limits<unsigned int>::max();
+
         void init(const DatasetMetadata & metadata) {
             clevel_ = std::get<int>(metadata.compressionOptions.at("level"));
         }
diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 8e2cf2f..0aacd9c 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -8,7 +8,9 @@
 #include <zlib.h>
 #endif
 
+#include <algorithm>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -147,16 +149,20 @@ namespace compression {
             // size the output to the worst-case bound so we can deflate in a single pass
             // directly into it (no 256kb scratch buffer, no per-block vector::insert).
             const std::size_t sizeInBytes = sizeIn * sizeof(T);
-            const uLong bound = deflateBound(&zs, sizeInBytes);
+            const std::size_t bound = deflateBound(&zs, sizeInBytes);
             dataOut.resize(bound);
 
-            zs.next_in = (Bytef*) dataIn;
-            zs.avail_in = sizeInBytes;
-            zs.next_out = reinterpret_cast<Bytef*>(dataOut.data());
-            zs.avail_out = bound;
-
-            // deflateBound guarantees the whole input fits, so a single Z_FINISH suffices
-            const int ret = deflate(&zs, Z_FINISH);
+            // deflateBound guarantees the whole input fits, so a single Z_FINISH suffices,
+            // unless the sizes exceed the 32 bit of the zlib stream
+            int ret;
+            do {
+                const std::size_t stepIn = std::min(sizeInBytes - (std::size_t) zs.total_in, maxStep);
+                zs.next_in = (Bytef*) dataIn + zs.total_in;
+                zs.avail_in = stepIn;
+                zs.next_out = reinterpret_cast<Bytef*>(dataOut.data()) + zs.total_out;
+                zs.avail_out = std::min(bound - (std::size_t) zs.total_out, maxStep);
+                ret = deflate(&zs, zs.total_in + stepIn < sizeInBytes ? Z_NO_FLUSH : Z_FINISH);
+            } while(ret == Z_OK && zs.total_out < bound);
             const std::size_t compressedSize = zs.total_out;
             deflateEnd(&zs);
 
@@ -182,26 +188,23 @@ namespace compression {
                 throw(std::runtime_error("Initializing zLib inflate failed"));
             }
 
-            // set the stream input to the beginning of the input data
-            zs.next_in = (Bytef*) dataIn;
-            zs.avail_in = nBytesIn;
-
-            // let zlib decompress the bytes blockwise
+            // let zlib decompress the bytes blockwise, the sizes in the zlib stream have only 32 bit
+            const std::size_t sizeOutBytes = sizeOut * sizeof(T);
             int ret;
-            std::size_t currentPosition = 0;
+            bool progress;
             do {
-                // set the stream output to the output dat at the current position
-                // and set the available size to the remaining bytes in the output data
+                // set the stream input and output to the current position
+                // and set the available sizes to the remaining bytes
                 // reinterpret_cast because (Bytef*) throws warning
-                zs.next_out = reinterpret_cast<Bytef*>(dataOut + currentPosition);
-                zs.avail_out = (sizeOut - currentPosition) * sizeof(T);
+                const std::size_t posIn = zs.total_in, posOut = zs.total_out;
+                zs.next_in = (Bytef*) dataIn + posIn;
+                zs.avail_in = std::min(nBytesIn - posIn, maxStep);
+                zs.next_out = reinterpret_cast<Bytef*>(dataOut) + posOut;
+                zs.avail_out = std::min(sizeOutBytes - posOut, maxStep);
 
-                ret = inflate(&zs, Z_FINISH);
-
-                // get the current position in the out data
-                currentPosition = zs.total_out / sizeof(T);
-
-            } while(ret == Z_OK);
+                ret = inflate(&zs, Z_NO_FLUSH);
+                progress = zs.total_in > posIn || zs.total_out > posOut;
+            } while(ret == Z_OK && progress);
 
             inflateEnd(&zs);
 
@@ -209,7 +212,7 @@ namespace compression {
                 std::string err = "Exception during zlib decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
     		}
-            checkDecompressedSize(zs.total_out, sizeOut * sizeof(T));
+            checkDecompressedSize(zs.total_out, sizeOutBytes);
 		}
 
 #endif // WITH_LIBDEFLATE
@@ -226,6 +229,11 @@ namespace compression {
         }
 
     private:
+#ifndef WITH_LIBDEFLATE
+        // the largest number of bytes that is passed to the zlib stream at once
+        static constexpr std::size_t maxStep = std::numeric_limits<uInt>::max();
+#endif
+
         void init(const DatasetMetadata & metadata) {
             level_ = std::get<int>(metadata.compressionOptions.at("level"));
             useZlibEncoding_ = std::get<bool>(metadata.compressionOptions.at("useZlib"));
-- 
2.43.0


From 548a775297ae38428c5c58d1006a695c95023359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 33/46] fix: reading a shard failed while another thread
 removed or re-created it

---
 include/z5/filesystem/store.hxx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index c4cbd13..e223f5c 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <atomic>
+#include <cerrno>
 #include <fstream>
 #include <ios>
 #include <string>
@@ -21,10 +22,16 @@ namespace filesystem {
 namespace store_detail {
 
     // 'what' names the object kind ("chunk" / "shard") in error messages
-    inline void readFile(const fs::path & path, std::vector<char> & buffer, const char * what) {
+    // returns false if the file does not exist
+    inline bool readFile(const fs::path & path, std::vector<char> & buffer, const char * what) {
         // open input stream and read the filesize
+        errno = 0;
         std::ifstream file(path, std::ios::binary);
         if(!file.is_open()) {
+            // don't ask the file system: another thread may create or remove the file (of a shard) at any time
+            if(errno == ENOENT || errno == ENOTDIR) {
+                return false;
+            }
             throw std::runtime_error(std::string("z5: cannot open ") + what + " file for reading: " + path.string());
         }
 
@@ -41,6 +48,7 @@ namespace store_detail {
             throw std::runtime_error(std::string("z5: failed to read ") + what + " file: " + path.string());
         }
         file.close();
+        return true;
     }
 
     // The data goes to a temporary file that then replaces the target: if it cannot be
@@ -95,11 +103,7 @@ namespace store_detail {
 
         static inline bool read(const ChunkHandleType & chunk, std::vector<char> & buffer,
                                 const char * what = "chunk") {
-            if(!fs::exists(chunk.path())) {
-                return false;
-            }
-            store_detail::readFile(chunk.path(), buffer, what);
-            return true;
+            return store_detail::readFile(chunk.path(), buffer, what);
         }
 
         static inline void write(const ChunkHandleType & chunk, const std::vector<char> & buffer,
-- 
2.43.0


From 64b046641b73d055ff6f8a25640249c63804eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 34/46] fix: n5 groups without attributes or without a version
 could not be opened as file

---
 include/z5/filesystem/metadata.hxx | 8 +++++++-
 src/python/module/z5py/file.py     | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index 0d0b25d..2569909 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -80,8 +80,14 @@ namespace metadata_detail {
                 j["zarr_format"] = jTmp["zarr_format"];
             }
         } else {
+            // the attributes of an n5 group and the version in them are optional
+            j = nlohmann::json::object();
+            const fs::path n5Path = handle.path() / "attributes.json";
+            if(!fs::exists(n5Path)) {
+                return;
+            }
             nlohmann::json jTmp;
-            metadata_detail::readMetadata(handle.path() / "attributes.json", jTmp);
+            metadata_detail::readMetadata(n5Path, jTmp);
             auto jIt = jTmp.find("n5");
             if(jIt != jTmp.end()) {
                 j["n5"] = jIt.value();
diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 5c9ce6b..b1871b3 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -126,6 +126,9 @@ class File(Group):
         if handle.exists():
             if mode.must_not_exist():
                 raise OSError(errno.EEXIST, os.strerror(errno.EEXIST), handle.path())
+            # (n5 metadata is optional)
+            if is_zarr and not handle.is_zarr() and not os.path.exists(os.path.join(path, 'attributes.json')):
+                raise RuntimeError("Cannot open %s in zarr format: it has no metadata" % path)
             # recovers the actual on-disk zarr_format into self._zarr_format
             self._check_version()
         else:
-- 
2.43.0


From ea9af3da46250be1ae1ff3bcdade397056b7d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:25 +0000
Subject: [PATCH 35/46] fix: require_dataset refused the chunks that a dataset
 was created with if they exceed the shape

---
 src/python/module/z5py/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index bc12e32..ddf3c66 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -231,6 +231,8 @@ class Dataset:
                 raise TypeError("Shapes do not match (existing (%s) vs new (%s))" % (', '.join(map(str, ds.shape)),
                                                                                      ', '.join(map(str, shape))))
             if chunks is not None:
+                # chunks are limited to the shape on creation
+                chunks = tuple(min(ch, sh) for ch, sh in zip(chunks, shape)) if len(chunks) == len(shape) else chunks
                 if chunks != ds.chunks:
                     raise TypeError("Chunks do not match (existing (%s) vs new (%s))" % (', '.join(map(str, ds.chunks)),
                                                                                          ', '.join(map(str, chunks))))
-- 
2.43.0


From bb0392c749f36670a7241e29ed75d1a29776c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:25 +0000
Subject: [PATCH 36/46] fix: a regular file could be opened as a container in
 n5 format

---
 src/python/module/z5py/file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index b1871b3..06fda25 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -126,6 +126,8 @@ class File(Group):
         if handle.exists():
             if mode.must_not_exist():
                 raise OSError(errno.EEXIST, os.strerror(errno.EEXIST), handle.path())
+            if not os.path.isdir(path):
+                raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), handle.path())
             # (n5 metadata is optional)
             if is_zarr and not handle.is_zarr() and not os.path.exists(os.path.join(path, 'attributes.json')):
                 raise RuntimeError("Cannot open %s in zarr format: it has no metadata" % path)
-- 
2.43.0


From f82b60333b7b234c6a3f67b79ce2bd9b6ae61bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:15 +0000
Subject: [PATCH 37/46] fix: a group, dataset or container whose metadata could
 not be written left a directory that blocked its name

---
 include/z5/filesystem/factory.hxx | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/z5/filesystem/factory.hxx b/include/z5/filesystem/factory.hxx
index 2d0c806..b9c43e9 100644
--- a/include/z5/filesystem/factory.hxx
+++ b/include/z5/filesystem/factory.hxx
@@ -11,6 +11,19 @@ namespace filesystem {
 
 namespace factory_detail {
 
+    // write the metadata of an object that was just created; if this fails, its (empty)
+    // directory must not stay behind and block the name
+    template<class HANDLE, class METADATA>
+    inline void writeNewMetadata(const HANDLE & handle, const METADATA & metadata) {
+        try {
+            writeMetadata(handle, metadata);
+        } catch(...) {
+            std::error_code ec;
+            fs::remove(handle.path(), ec);
+            throw;
+        }
+    }
+
     // instantiate the right concrete dataset for the element type:
     // a sharded dataset if the metadata carries a shard shape, else the plain one
     inline std::unique_ptr<z5::Dataset> makeDataset(const handle::Dataset & dataset,
@@ -60,7 +73,7 @@ namespace factory_detail {
         const DatasetMetadata & metadata
     ) {
         dataset.create();
-        writeMetadata(dataset, metadata);
+        factory_detail::writeNewMetadata(dataset, metadata);
         return factory_detail::makeDataset(dataset, metadata);
     }
 
@@ -69,14 +82,14 @@ namespace factory_detail {
     inline void createFile(const z5::handle::File<GROUP> & file, const bool isZarr, const int zarrFormat=2) {
         file.create();
         Metadata fmeta(isZarr, zarrFormat);
-        writeMetadata(file, fmeta);
+        factory_detail::writeNewMetadata(file, fmeta);
     }
 
 
     inline void createGroup(const handle::Group & group, const bool isZarr, const int zarrFormat=2) {
         group.create();
         Metadata fmeta(isZarr, zarrFormat);
-        writeMetadata(group, fmeta);
+        factory_detail::writeNewMetadata(group, fmeta);
     }
 
 
-- 
2.43.0


From 258eb6c4bf273c946636b1d7ccb1e435dc23afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:17 +0000
Subject: [PATCH 38/46] fix: reading a deeply nested json document (attributes,
 metadata) overflowed the stack

---
 include/z5/factory.hxx               |  4 ++--
 include/z5/filesystem/attributes.hxx |  2 +-
 include/z5/filesystem/metadata.hxx   |  2 +-
 include/z5/util/util.hxx             | 14 ++++++++++++++
 src/python/lib/attributes.cxx        |  5 ++++-
 5 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/z5/factory.hxx b/include/z5/factory.hxx
index 7c324f9..f520c8d 100644
--- a/include/z5/factory.hxx
+++ b/include/z5/factory.hxx
@@ -23,7 +23,7 @@ namespace z5 {
             if(fs::exists(v3)) {
                 nlohmann::json j;
                 std::ifstream file(v3);
-                file >> j;
+                util::readJson(file, j);
                 file.close();
                 zarrFormat = 3;
                 if(j.contains("chunk_key_encoding")) {
@@ -45,7 +45,7 @@ namespace z5 {
             if(fs::exists(v2)) {
                 nlohmann::json j;
                 std::ifstream file(v2);
-                file >> j;
+                util::readJson(file, j);
                 file.close();
                 zarrFormat = 2;
                 const auto it = j.find("dimension_separator");
diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index e39d7f7..a1c84f4 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -38,7 +38,7 @@ namespace attrs_detail {
                 return false;
             }
             std::ifstream file(path);
-            file >> j;
+            util::readJson(file, j);
             file.close();
             return true;
         }
diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index 2569909..70b85bc 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -18,7 +18,7 @@ namespace metadata_detail {
 
     inline void readMetadata(const fs::path & path, nlohmann::json & j) {
         std::ifstream file(path);
-        file >> j;
+        util::readJson(file, j);
         file.close();
     }
 
diff --git a/include/z5/util/util.hxx b/include/z5/util/util.hxx
index 67a81f2..60036f3 100644
--- a/include/z5/util/util.hxx
+++ b/include/z5/util/util.hxx
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <istream>
+#include <stdexcept>
 #include <string>
 
 #include "z5/types/types.hxx"
@@ -7,6 +9,18 @@
 namespace z5 {
 namespace util {
 
+    // Read a json document. The nesting is limited, because copying or serializing a document
+    // is recursive, so a deeply nested (corrupt or hostile) one would overflow the stack.
+    inline void readJson(std::istream & stream, nlohmann::json & j, const int maxDepth=5000) {
+        j = nlohmann::json::parse(stream, [maxDepth](int depth, nlohmann::json::parse_event_t, nlohmann::json &){
+            if(depth > maxDepth) {
+                throw std::runtime_error("z5: json document is nested too deeply");
+            }
+            return true;
+        });
+    }
+
+
     template<typename ITER>
     inline void join(const ITER & begin, const ITER & end, std::string & out, const std::string & delimiter) {
         for(ITER it = begin; it != end; ++it) {
diff --git a/src/python/lib/attributes.cxx b/src/python/lib/attributes.cxx
index 919f6fd..bd59cbf 100644
--- a/src/python/lib/attributes.cxx
+++ b/src/python/lib/attributes.cxx
@@ -14,7 +14,10 @@ namespace z5 {
         // attribute IO does file / network round trips (one per call for the S3
         // backend) and only handles C++ types -> release the GIL
         m.def("write_attributes", [](const OBJECT & g, const std::string & attrs){
-            const nlohmann::json j = nlohmann::json::parse(attrs);
+            // (the stored document, which has to be readable again, is nested a bit deeper)
+            std::istringstream stream(attrs);
+            nlohmann::json j;
+            util::readJson(stream, j, 4990);
             writeAttributes(g, j);
         }, nb::call_guard<nb::gil_scoped_release>());
 
-- 
2.43.0


From 9476a27c90e22a1f6f34401e0b63c917151301e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 39/46] fix: iterating over chunks or blocks accepted regions
 and block shapes that do not fit the dataset

Empty, reversed or too large regions and regions or blocks of another dimension
led to endless iteration, chunk ids outside of the grid, a division by zero or
reads out of bounds.
---
 include/z5/util/blocking.hxx |  8 ++++++++
 include/z5/util/for_each.hxx | 31 ++++++++++++++++++++++---------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index b0c088c..8d2e9d8 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -224,6 +224,14 @@ namespace util {
                 // be an out-of-bounds write for a zero-dimensional shape)
                 throw std::invalid_argument("z5: zero-dimensional shapes are not supported");
             }
+            if(blockShape_.size() != ndim) {
+                throw std::invalid_argument("z5: shape and block shape have different dimensions");
+            }
+            for(const auto extent : blockShape_) {
+                if(extent == 0) {
+                    throw std::invalid_argument("z5: block shapes must not have zero entries");
+                }
+            }
             blocksPerDimension_.resize(ndim);
 
             for(int d = 0; d < ndim; ++d) {
diff --git a/include/z5/util/for_each.hxx b/include/z5/util/for_each.hxx
index 7002a29..4d2ee86 100644
--- a/include/z5/util/for_each.hxx
+++ b/include/z5/util/for_each.hxx
@@ -21,16 +21,32 @@ namespace util {
     }
 
 
+    // get the shape of the roi and check that it is a (non-empty) part of the dataset
+    inline types::ShapeType getRoiShape(const Dataset & dataset,
+                                        const types::ShapeType & roiBegin,
+                                        const types::ShapeType & roiEnd) {
+        if(roiBegin.size() != roiEnd.size()) {
+            throw std::runtime_error("Roi begin and end have different dimensions");
+        }
+        types::ShapeType roiShape(roiEnd);
+        for(std::size_t d = 0; d < roiShape.size(); ++d) {
+            if(roiEnd[d] < roiBegin[d]) {
+                throw std::runtime_error("Roi end is smaller than roi begin");
+            }
+            roiShape[d] -= roiBegin[d];
+        }
+        dataset.checkRequestShape(roiBegin, roiShape);
+        return roiShape;
+    }
+
+
     template<class F>
     void parallel_for_each_chunk_in_roi(const Dataset & dataset,
                                         const types::ShapeType & roiBegin,
                                         const types::ShapeType & roiEnd,
                                         const int nThreads, F && f) {
-        // get roi shape
-        types::ShapeType roiShape(roiEnd);
-        for(unsigned d = 0; d < roiShape.size(); ++d) {
-            roiShape[d] -= roiBegin[d];
-        }
+        // get the roi shape
+        const types::ShapeType roiShape = getRoiShape(dataset, roiBegin, roiEnd);
 
         // get the (coordinate) chunk ids that overlap with the roi
         std::vector<types::ShapeType> chunks;
@@ -66,10 +82,7 @@ namespace util {
                                         const types::ShapeType & roiEnd,
                                         const int nThreads, F && f) {
         // get the roi shape
-        types::ShapeType roiShape(roiEnd);
-        for(unsigned d = 0; d < roiShape.size(); ++d) {
-            roiShape[d] -= roiBegin[d];
-        }
+        const types::ShapeType roiShape = getRoiShape(dataset, roiBegin, roiEnd);
 
         // get blocks overlapping the roi
         const Blocking blocking(dataset.shape(), blockShape);
-- 
2.43.0


From 6a128bece58a44acc6589d4eddfc794a0c292537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:15 +0000
Subject: [PATCH 40/46] fix: n5 chunks with an extent or length of 2^32 and
 more were stored with a truncated header

---
 include/z5/util/format_data.hxx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index f369277..8f7e7cc 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -1,5 +1,11 @@
 #pragma once
 
+#include <algorithm>
+#include <cstring>
+#include <limits>
+#include <numeric>
+#include <vector>
+
 #include "z5/handle.hxx"
 
 namespace z5 {
@@ -20,7 +26,13 @@ namespace util {
 
 
     inline void write_n5_header(std::vector<char> & buffer, const types::ShapeType & shape,
-                                const bool isVarlen, const uint32_t varlen) {
+                                const bool isVarlen, const std::size_t varlen) {
+
+        // the header stores all sizes with 32 bit
+        constexpr std::size_t maxSize = std::numeric_limits<uint32_t>::max();
+        if((isVarlen && varlen > maxSize) || std::any_of(shape.begin(), shape.end(), [](const std::size_t sh){return sh > maxSize;})) {
+            throw std::runtime_error("z5: chunk is too large for the n5 format");
+        }
 
         const unsigned ndim = shape.size();
         buffer.resize((ndim + 1) * 4);
-- 
2.43.0


From c0187d4159ad21442b62bd44429252ace1ad4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:24 +0000
Subject: [PATCH 41/46] fix: arrays whose number of elements fits, but not
 their shape, were written reshaped

---
 src/python/module/z5py/shape_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 1991625..dcb3806 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -102,7 +102,8 @@ def rectify_shape(arr, required_shape):
             if window[-1] != 1:
                 break
     else:
-        return arr.reshape(required_shape)
+        if not is_leading:
+            return arr.reshape(required_shape)
 
     raise ValueError(msg)
 
-- 
2.43.0


From 3a7347f6288760369b95fa03366a3403fe22b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 42/46] fix: refuse shapes whose last chunk or shard ends
 beyond the representable extent

---
 include/z5/metadata.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index ccfb2bc..ce78841 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -453,6 +453,15 @@ namespace z5 {
                     indexBytes *= nChunks;
                 }
             }
+            // the end of the last chunk (or shard) must be representable along every axis;
+            // this also refuses negative extents in the metadata
+            constexpr std::size_t maxExtent = std::numeric_limits<std::ptrdiff_t>::max();
+            const auto & gridShape = shardShape.empty() ? chunkShape : shardShape;
+            for(std::size_t d = 0; d < shape.size(); ++d) {
+                if(shape[d] > maxExtent || gridShape[d] > maxExtent - shape[d]) {
+                    throw std::runtime_error("The shape is too large");
+                }
+            }
         }
 
 
-- 
2.43.0


From 0be7ea8aa54da5aaeb9a00b4c1b4b63ab31f9a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:52 +0000
Subject: [PATCH 43/46] fix: do not take a failed S3 HEAD request for a missing
 object

---
 include/z5/s3/handle.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 3576e42..00e0141 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -251,7 +251,11 @@ namespace detail {
         Aws::S3::Model::HeadObjectRequest request;
         request.SetBucket(Aws::String(bucket.c_str(), bucket.size()));
         request.SetKey(Aws::String(key.c_str(), key.size()));
-        return client.HeadObject(request).IsSuccess();
+        const auto outcome = client.HeadObject(request);
+        if(!outcome.IsSuccess() && !isNotFound(outcome.GetError())) {
+            throw makeS3Error("could not query object in S3", key, outcome.GetError());
+        }
+        return outcome.IsSuccess();
     }
 
     inline void deleteObject(Aws::S3::S3Client & client,
-- 
2.43.0


From d6d7ac615909f9ba73b108189974c783675f5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:53 +0000
Subject: [PATCH 44/46] fix: raise when the listing of an S3 group fails
 instead of returning a part of it

---
 include/z5/s3/handle.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 00e0141..f31a515 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -383,7 +383,7 @@ namespace handle {
             do {
                 auto outcome = client->ListObjectsV2(request);
                 if(!outcome.IsSuccess()) {
-                    break;
+                    throw detail::makeS3Error("could not list objects in S3", bucketPrefix, outcome.GetError());
                 }
                 object_list = outcome.GetResult();
                 for(const auto & common_prefix : object_list.GetCommonPrefixes()) {
-- 
2.43.0


From 170c7dafc1040744b1f0a2c336c9a12a89e2ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:43 +0000
Subject: [PATCH 45/46] fix: raise when S3 could not delete some of the objects
 below a prefix

---
 include/z5/s3/handle.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index f31a515..8177948 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -313,6 +313,13 @@ namespace detail {
             if(!outcome.IsSuccess()) {
                 throw makeS3Error("could not delete objects from S3", prefix, outcome.GetError());
             }
+            // a successful request can still have failed for single keys
+            const auto & errors = outcome.GetResult().GetErrors();
+            if(!errors.empty()) {
+                throw std::runtime_error("z5: could not delete object from S3: " +
+                                         std::string(errors[0].GetKey().c_str()) +
+                                         " (" + std::string(errors[0].GetMessage().c_str()) + ")");
+            }
         }
     }
 
-- 
2.43.0


From a502107ca65a4128cf0f4692dd5c57b4aa83d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:09 +0000
Subject: [PATCH 46/46] fix: refuse too deeply nested json documents from S3 as
 those from files

---
 include/z5/s3/attributes.hxx | 5 ++++-
 include/z5/s3/factory.hxx    | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/z5/s3/attributes.hxx b/include/z5/s3/attributes.hxx
index 3c3ef5c..73b538c 100644
--- a/include/z5/s3/attributes.hxx
+++ b/include/z5/s3/attributes.hxx
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <sstream>
+
 #include "z5/s3/handle.hxx"
 #include "z5/generic/attributes.hxx"
 
@@ -19,7 +21,8 @@ namespace attrs_detail {
         if(content.empty()) {
             j = nlohmann::json::object();
         } else {
-            j = nlohmann::json::parse(content);
+            std::istringstream stream(content);
+            util::readJson(stream, j);
         }
         return true;
     }
diff --git a/include/z5/s3/factory.hxx b/include/z5/s3/factory.hxx
index 8ad541b..e0be837 100644
--- a/include/z5/s3/factory.hxx
+++ b/include/z5/s3/factory.hxx
@@ -43,7 +43,9 @@ namespace factory_detail {
         std::string content;
         // zarr v3
         if(detail::getObjectString(*client, bucket, detail::joinKey(base, "zarr.json"), content)) {
-            const nlohmann::json j = nlohmann::json::parse(content);
+            nlohmann::json j;
+            std::istringstream stream(content);
+            util::readJson(stream, j);
             zarrFormat = 3;
             if(j.contains("chunk_key_encoding")) {
                 const auto & cke = j["chunk_key_encoding"];
@@ -61,7 +63,9 @@ namespace factory_detail {
         }
         // zarr v2
         if(detail::getObjectString(*client, bucket, detail::joinKey(base, ".zarray"), content)) {
-            const nlohmann::json j = nlohmann::json::parse(content);
+            nlohmann::json j;
+            std::istringstream stream(content);
+            util::readJson(stream, j);
             zarrFormat = 2;
             const auto it = j.find("dimension_separator");
             if(it != j.end()) {
-- 
2.43.0

