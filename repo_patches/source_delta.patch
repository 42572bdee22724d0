From d13a00b7903499a925fc2829c672eb2c7b2623c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 01/30] fix: return a TreeVersionList reference when saving a
 tree version list

---
 dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index 99ddfa8..f39c695 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -111,4 +111,4 @@ class TreeVersionListGitMapper(VersionListGitMapper):
             realm,
             GitReference.TREE_VERSION_LIST.value,
             reference.location)
-        return reference
+        return Reference("TreeVersionList", reference.location)
-- 
2.43.0


From 90b77dec1133767db56d7f4e4095e141478a3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 02/30] fix: release the write cache of a realm when saving a
 file tree fails

---
 .../mapper/gitmapper/metadatamapper.py        |  9 ++++--
 dataladmetadatamodel/mtreeproxy.py            | 32 +++++++++++++++----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index ed11cdc..052147c 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -30,8 +30,13 @@ class MetadataGitMapper(Mapper):
         cache = cls.get_cache(realm)
         if cache is None:
             raise RuntimeError(f"realm is not cached: {realm}")
-        cache.flush()
-        del cls.metadata_caches[realm]
+        try:
+            cache.flush()
+        finally:
+            # Never keep a cache that could not be flushed, it would
+            # prevent all further write operations to the realm.
+            cache.cached_objects = []
+            del cls.metadata_caches[realm]
 
     def map_in_impl(self,
                     metadata: "Metadata",
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index b299cab..19413de 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -73,17 +73,37 @@ class MTreeProxy:
         if isinstance(self, FileTree):
             MetadataGitMapper.cache_realm(cache_destination)
 
-        reference = self.mtree.write_out(destination,
-                                         backend_type,
-                                         force_write)
-
-        if isinstance(self, FileTree):
-            MetadataGitMapper.flush_realm(cache_destination)
+        try:
+            reference = self.mtree.write_out(destination,
+                                             backend_type,
+                                             force_write)
+        finally:
+            # Flush the cache, even if the tree could not be written
+            # completely. Objects that were written up to this point
+            # are marked as saved, i.e. they have to be persisted.
+            if isinstance(self, FileTree):
+                self._flush_cache(cache_destination)
 
         if not reference.is_none_reference():
             add_tree_reference(reference.location)
         return reference
 
+    def _flush_cache(self, realm: str):
+        try:
+            MetadataGitMapper.flush_realm(realm)
+        except BaseException:
+            # The content of the cache is lost, ensure that
+            # everything is written again in the next attempt.
+            self._set_unsaved_recursive(self.mtree)
+            raise
+
+    @staticmethod
+    def _set_unsaved_recursive(mappable_object: MappableObject):
+        if mappable_object.mapped:
+            mappable_object.set_unsaved()
+            for sub_object in mappable_object.modifiable_sub_objects:
+                MTreeProxy._set_unsaved_recursive(sub_object)
+
     def purge(self):
         return self.mtree.purge()
 
-- 
2.43.0


From 473e7954d95587df5ccc63c63c5a1b80dd209b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 03/30] fix: support metadata root records without
 dataset-level metadata

---
 dataladmetadatamodel/metadatarootrecord.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/metadatarootrecord.py b/dataladmetadatamodel/metadatarootrecord.py
index ee3244a..2f177d6 100644
--- a/dataladmetadatamodel/metadatarootrecord.py
+++ b/dataladmetadatamodel/metadatarootrecord.py
@@ -45,11 +45,11 @@ class MetadataRootRecord(MappableObject):
         ]
 
     def purge_impl(self):
-        self.dataset_level_metadata.purge()
+        if self.dataset_level_metadata is not None:
+            self.dataset_level_metadata.purge()
         if self._file_tree is not None:
             self._file_tree.purge()
-        if self.dataset_level_metadata is not None:
-            self.dataset_level_metadata = None
+        self.dataset_level_metadata = None
         self._file_tree = None
 
     def set_file_tree(self, file_tree: FileTree):
@@ -72,6 +72,8 @@ class MetadataRootRecord(MappableObject):
 
     def get_dataset_level_metadata(self):
         self.ensure_mapped()
+        if self.dataset_level_metadata is None:
+            return None
         return self.dataset_level_metadata.read_in()
 
     def deepcopy_impl(self,
-- 
2.43.0


From 44e12189696ebab793c2b8134569d0418f71d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 04/30] fix: load uuid sets and version lists before accessing
 their content

---
 dataladmetadatamodel/uuidset.py     | 2 ++
 dataladmetadatamodel/versionlist.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 8d6aa00..fde6bc2 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -44,6 +44,7 @@ class UUIDSet(MappableObject):
         Existing references are deleted.
         The entry is marked as dirty.
         """
+        self.ensure_mapped()
         self.touch()
         self.uuid_set[uuid] = version_list
 
@@ -60,6 +61,7 @@ class UUIDSet(MappableObject):
         Remove a version list from memory. First, persist the
         current status, if it was changed.
         """
+        self.ensure_mapped()
         self.uuid_set[uuid].write_out()
         self.uuid_set[uuid].purge()
 
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index d9055ec..c24933a 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -60,6 +60,7 @@ class VersionList(MappableObject):
             initial_set or dict()
 
     def __len__(self):
+        self.ensure_mapped()
         return sum([len(path_dict) for path_dict in self.version_set.values()])
 
     def purge_impl(self):
@@ -187,6 +188,7 @@ class VersionList(MappableObject):
         the backend, if it was changed or--- then purge it
         from memory.
         """
+        self.ensure_mapped()
         version_record = self.version_set[primary_data_version][prefix_path]
         version_record.element.write_out(new_destination)
         version_record.element.purge()
-- 
2.43.0


From 34d4254c602f47343a68ec67858f37106174b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 05/30] fix: copy the content of text objects

---
 dataladmetadatamodel/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/text.py b/dataladmetadatamodel/text.py
index d5f89b9..cbfd906 100644
--- a/dataladmetadatamodel/text.py
+++ b/dataladmetadatamodel/text.py
@@ -41,6 +41,7 @@ class Text(MappableObject):
                       new_destination: Optional[str] = None,
                       **kwargs) -> "Text":
 
-        copied_text = Text()
+        copied_text = Text(self.content)
         copied_text.write_out(new_destination)
+        copied_text.purge()
         return copied_text
-- 
2.43.0


From 53fc7e8ab013d39c5a8e728772efbcd8aa80d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 06/30] fix: save trees that contain empty sub-trees

---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index eb1272b..163df4a 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -62,6 +62,7 @@ class MTreeNodeGitMapper(Mapper):
         for child_node in mtree_node.child_nodes.values():
             child_node.write_out(realm)
 
+        # Empty sub-trees are not stored in git, they have none-references
         dir_entries = [
             (
                 "040000" if isinstance(child_node, MTreeNode) else "100644",
@@ -70,7 +71,11 @@ class MTreeNodeGitMapper(Mapper):
                 self.escape_double_quotes(child_name)
             )
             for child_name, child_node in mtree_node.child_nodes.items()
+            if not child_node.reference.is_none_reference()
         ]
+        if not dir_entries:
+            return Reference.get_none_reference("MTreeNode")
+
         mtree_node_location = git_save_tree_node(realm, dir_entries)
         return Reference("MTreeNode", mtree_node_location)
 
-- 
2.43.0


From bca59ce2c872b790842f09a7ad2ff42f2bc91fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 07/30] fix: treat objects with none-references as saved, empty
 objects

---
 dataladmetadatamodel/mappableobject.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 442e964..4f9f428 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -56,12 +56,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"construction."
 
         # We assume that objects that carry a reference have been
-        # saved in the location given by the reference.
-        super().__init__(
-            realm
-            if reference is not None and not reference.is_none_reference()
-            else None
-        )
+        # saved in the location given by the reference. This includes
+        # none-references, which refer to an empty object.
+        super().__init__(realm if reference is not None else None)
 
         self.realm = realm
         self.reference = reference
@@ -101,6 +98,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 assert self.reference.class_name == type(self).__name__
                 logger.warning(f"read_in({self}): None-reference in {self}")
                 self.purge_impl()
+                self.mapped = True
                 return self
 
             # Ensure that the object is saved on the given realm
-- 
2.43.0


From e14aafac6af28d09ce4e555df9bfe6464c44992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 08/30] fix: compare instance sets with more than one
 configuration

---
 dataladmetadatamodel/metadata.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 639ff27..0cb5b8c 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -212,8 +212,15 @@ class MetadataInstanceSet:
         return cls.from_json_obj(json.loads(json_str))
 
     def __eq__(self, other: "MetadataInstanceSet"):
-        return sorted(self.parameter_set) == sorted(other.parameter_set) \
-               and self._instances == other._instances
+        # The order of configurations is not relevant
+        return (
+            len(self.parameter_set) == len(other.parameter_set)
+            and all(
+                configuration in other.parameter_set
+                and self.get_instance_for_configuration(configuration)
+                == other.get_instance_for_configuration(configuration)
+                for configuration in self.parameter_set)
+        )
 
 
 class Metadata(MappableObject):
-- 
2.43.0


From d931f590048d1d6f8444b0eb54d9e603cdd8d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 09/30] fix: hash extractor configurations with list or
 dictionary parameters

---
 dataladmetadatamodel/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 0cb5b8c..24eaecc 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -21,7 +21,8 @@ from dataladmetadatamodel.mapper.reference import Reference
 
 class ParameterDict(dict):
     def __hash__(self):
-        return hash(tuple(sorted(self.items())))
+        # Values might be unhashable JSON-objects, i.e. lists or dicts
+        return hash(frozenset(self.keys()))
 
 
 class ExtractorConfiguration:
-- 
2.43.0


From 41cb4ed73529ce0c349a2a699e60a135c11d40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 10/30] fix: load metadata objects before comparing or
 serializing them

---
 dataladmetadatamodel/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 24eaecc..6163a8a 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -244,6 +244,8 @@ class Metadata(MappableObject):
         self.instance_sets: Dict[str, MetadataInstanceSet] = dict()
 
     def __eq__(self, other):
+        self.ensure_mapped()
+        other.ensure_mapped()
         return self.instance_sets == other.instance_sets
 
     @staticmethod
@@ -297,6 +299,7 @@ class Metadata(MappableObject):
         self.instance_sets[extractor_name] = instance_set
 
     def to_json(self) -> str:
+        self.ensure_mapped()
         return json.dumps({
             "@": dict(
                 type="Metadata",
-- 
2.43.0


From 452541ac19d3838635c5ca53e422a5874f4734fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 11/30] fix: add extractor runs to paths that are not yet in
 the file tree

---
 dataladmetadatamodel/filetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/filetree.py b/dataladmetadatamodel/filetree.py
index 77271c8..a04560a 100644
--- a/dataladmetadatamodel/filetree.py
+++ b/dataladmetadatamodel/filetree.py
@@ -62,9 +62,8 @@ class FileTree(MTreeProxy):
                           configuration: ExtractorConfiguration,
                           metadata_content: JSONObject):
 
-        try:
-            metadata = self.get_metadata(path)
-        except AttributeError:
+        metadata = self.get_metadata(path)
+        if metadata is None:
             metadata = Metadata()
             self.add_metadata(path, metadata)
 
-- 
2.43.0


From 5e7e5a6253dbfa8d878c9df136c6a2187285c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 12/30] fix: quote tree entry names that contain line breaks

---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index 163df4a..1c1efec 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -81,12 +81,14 @@ class MTreeNodeGitMapper(Mapper):
 
     @classmethod
     def escape_double_quotes(cls, input_string: str) -> str:
-        if '"' in input_string:
+        if any(character in input_string for character in '"\n\r'):
             return (
                 '"'
                 + input_string
                 .replace('\\', '\\\\')
                 .replace('\"', '\\"')
+                .replace('\n', '\\n')
+                .replace('\r', '\\r')
                 + '"'
             )
         else:
-- 
2.43.0


From a4267526bc42663dee1aa848f83ac323792b5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 13/30] fix: keep realm and reference unchanged if an object
 cannot be saved

---
 dataladmetadatamodel/mappableobject.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 4f9f428..f35f21a 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -135,6 +135,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         from dataladmetadatamodel.mapper import get_mapper
 
+        # If no destination is given, use the realm of the object.
+        destination_realm = destination_realm or self.realm
+
         # If the object is not mapped and not modified,
         # we do not have to do anything.
         if not self.mapped:
@@ -156,9 +159,6 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f" saved on {destination_realm}")
             return self.reference
 
-        if self.realm:
-            destination_realm = destination_realm or self.realm
-
         assert destination_realm is not None, \
             f"write_out({self}): no destination available for {self}"
 
@@ -167,10 +167,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out({self}): trying to write to a remote realm: "
                 f"{destination_realm}")
 
-        self.realm = destination_realm
-
         if self.is_saved_on(destination_realm):
             if not force_write:
+                self.realm = destination_realm
                 logger.debug(
                     f"write_out({self}): skipping map_out because {self} "
                     f"is already stored on {destination_realm}")
@@ -184,18 +183,21 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"write_out({self}): calling map_out to save {self} "
             f"to {destination_realm}")
 
-        self.reference = get_mapper(
+        reference = get_mapper(
             type(self).__name__,
             backend_type).map_out(
                 self,
                 destination_realm,
                 force_write)
 
-        self.set_saved_on(destination_realm)
-
-        assert isinstance(self.reference, Reference), \
+        assert isinstance(reference, Reference), \
             f"write_out({self}): object {self} has no valid " \
-            f"reference: {self.reference}"
+            f"reference: {reference}"
+
+        # Update the state of the object only if it was saved.
+        self.realm = destination_realm
+        self.reference = reference
+        self.set_saved_on(destination_realm)
 
         return self.reference
 
-- 
2.43.0


From f97db95bd8f418364de03944ed27ac44be68e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 14/30] fix: add metadata root records in version lists to the
 object references

---
 .../mapper/gitmapper/versionlistmapper.py     | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index f39c695..d6cca5e 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -3,7 +3,10 @@ from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
     git_save_json,
     git_update_ref,
 )
-from dataladmetadatamodel.mapper.gitmapper.objectreference import GitReference
+from dataladmetadatamodel.mapper.gitmapper.objectreference import (
+    add_blob_reference,
+    GitReference,
+)
 from dataladmetadatamodel.mapper.mapper import Mapper
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -52,6 +55,16 @@ class VersionListGitMapper(Mapper):
 
         return version_records
 
+    @staticmethod
+    def _write_element(element, realm: str) -> Reference:
+        reference = element.write_out(realm)
+        # Dataset trees add themselves to the object references. Metadata
+        # root records have to be added here, because they are only referenced
+        # in the JSON-string of the version list.
+        if reference.class_name == "MetadataRootRecord":
+            add_blob_reference(reference.location)
+        return reference
+
     def map_in_impl(self,
                     version_list: "VersionList",
                     realm: str,
@@ -76,7 +89,9 @@ class VersionListGitMapper(Mapper):
                 "primary_data_version": primary_data_version,
                 "time_stamp": version_record.time_stamp,
                 "path": version_record.prefix_path.as_posix(),
-                "dataset_tree": version_record.element.write_out(realm).to_json_obj()
+                "dataset_tree": self._write_element(
+                    version_record.element,
+                    realm).to_json_obj()
             }
             for primary_data_version, prefix_set in version_list.version_set.items()
             for version_record in prefix_set.values()
-- 
2.43.0


From da77960e11c163a042c0790c03d91032f1040db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 15/30] fix: do not pass repository paths and object references
 to a shell

---
 dataladmetadatamodel/metadatasource.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/dataladmetadatamodel/metadatasource.py b/dataladmetadatamodel/metadatasource.py
index 572b2c7..b51312a 100644
--- a/dataladmetadatamodel/metadatasource.py
+++ b/dataladmetadatamodel/metadatasource.py
@@ -94,9 +94,10 @@ class LocalGitMetadataSource(MetadataSource):
             and self.object_reference == other.object_reference)
 
     def write_object_to(self, file_descriptor: IO):
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}"
-        result = subprocess.run(command, stdout=file_descriptor, shell=True)
+        command = [
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference]
+        result = subprocess.run(command, stdout=file_descriptor)
         if result.returncode != 0:
             raise RuntimeError(
                 f"subprocess returned {result.returncode}, "
@@ -108,13 +109,13 @@ class LocalGitMetadataSource(MetadataSource):
         instance into the git repository given by
         destination_repository.
         """
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}|" \
-                  f"git --git-dir {destination_repository / '.git'} " \
-                  f"hash-object -w --stdin"
-        copied_object_reference = subprocess.check_output(
-            command,
-            shell=True).decode().strip()
+        content = subprocess.check_output([
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference])
+        copied_object_reference = subprocess.check_output([
+            "git", "--git-dir", str(destination_repository / ".git"),
+            "hash-object", "-w", "--stdin"],
+            input=content).decode().strip()
         assert copied_object_reference == self.object_reference
         return copied_object_reference
 
-- 
2.43.0


From 63d89dad1f6d39003bc4fc465a06f91e43f41841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 16/30] fix: create relative metadata paths with Python 3.12
 and later

---
 dataladmetadatamodel/metadatapath.py | 34 +++++++++++++++++-----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/dataladmetadatamodel/metadatapath.py b/dataladmetadatamodel/metadatapath.py
index 04f6bbe..db21cf8 100644
--- a/dataladmetadatamodel/metadatapath.py
+++ b/dataladmetadatamodel/metadatapath.py
@@ -1,10 +1,22 @@
+import sys
 from pathlib import PurePosixPath
 
 from dataladmetadatamodel.log import logger
 
 
 class MetadataPath(PurePosixPath):
-    def __new__(cls, *args):
+
+    # Since Python 3.12 the path segments are processed in `__init__`,
+    # and not in `__new__` anymore.
+    if sys.version_info >= (3, 12):
+        def __init__(self, *args):
+            super().__init__(self._get_relative_path(*args))
+    else:
+        def __new__(cls, *args):
+            return super().__new__(cls, cls._get_relative_path(*args))
+
+    @staticmethod
+    def _get_relative_path(*args) -> str:
 
         posix_args = []
         for arg in args:
@@ -14,18 +26,14 @@ class MetadataPath(PurePosixPath):
 
         original_path = PurePosixPath(*posix_args)
         if not original_path.is_absolute():
-            created_path = super().__new__(
-                cls,
-                "/".join(original_path.parts))
-        else:
-            modified_path = "/".join(original_path.parts[1:])
-            created_path = super().__new__(cls, modified_path)
-            logger.warning(
-                f"Denied creation of absolute metadata path: {original_path}, "
-                f"created {modified_path} instead. This is considered an error "
-                f"in the calling code.")
-
-        return created_path
+            return "/".join(original_path.parts)
+
+        modified_path = "/".join(original_path.parts[1:])
+        logger.warning(
+            f"Denied creation of absolute metadata path: {original_path}, "
+            f"created {modified_path} instead. This is considered an error "
+            f"in the calling code.")
+        return modified_path
 
     def __str__(self):
         path_str = PurePosixPath.__str__(self)
-- 
2.43.0


From f4431cacb09626a3429c51bc0d8cc60282046743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 17/30] fix: do not modify the uuid set in lookups without
 auto_create

---
 dataladmetadatamodel/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index fa370f9..83fc49b 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -217,7 +217,7 @@ def get_metadata_root_record_from_top_nodes(
         else:
             root_mrr = dataset_tree.get_metadata_root_record(MetadataPath(""))
 
-        if (root_dataset_version, prefix_path) not in root_uuid_version_list.versions_and_prefix_paths():
+        if auto_create and (root_dataset_version, prefix_path) not in root_uuid_version_list.versions_and_prefix_paths():
             root_uuid_version_list.set_versioned_element(
                 primary_data_version=root_dataset_version,
                 time_stamp=str(time.time()),
@@ -263,7 +263,7 @@ def get_metadata_root_record_from_top_nodes(
         metadata_root_record = dataset_tree.get_metadata_root_record(
             dataset_tree_path)
 
-    if (primary_data_version, prefix_path) not in uuid_version_list.versions_and_prefix_paths():
+    if auto_create and (primary_data_version, prefix_path) not in uuid_version_list.versions_and_prefix_paths():
         uuid_version_list.set_versioned_element(
             primary_data_version=primary_data_version,
             time_stamp=str(time.time()),
-- 
2.43.0


From 27904c339e0860ea9c8f92d2156a1bc7be3ce69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 18/30] fix: load existing top-level elements if the other one
 does not exist

---
 dataladmetadatamodel/common.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 83fc49b..53dcab1 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -12,6 +12,7 @@ from uuid import UUID
 
 from dataladmetadatamodel.datasettree import DatasetTree
 from dataladmetadatamodel.filetree import FileTree
+from dataladmetadatamodel.mappableobject import MappableObject
 from dataladmetadatamodel.metadata import Metadata
 from dataladmetadatamodel.metadatapath import MetadataPath
 from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
@@ -69,10 +70,17 @@ def get_top_level_metadata_objects(
             realm,
             get_uuid_set_location(mapper_family)))
 
+    # One of the elements might exist without the other one, e.g. if only
+    # one of them was written.
+    return _read_in_if_exists(tree_version_list), _read_in_if_exists(uuid_set)
+
+
+def _read_in_if_exists(mappable_object: MappableObject
+                       ) -> Optional[MappableObject]:
     try:
-        return tree_version_list.read_in(), uuid_set.read_in()
+        return mappable_object.read_in()
     except RuntimeError:
-        return None, None
+        return None
 
 
 def get_top_nodes_and_metadata_root_record(
-- 
2.43.0


From 041062d59c72793103bbcdc7c01d112f6d34f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 19/30] fix: keep the metadata root records in the uuid set up
 to date

---
 dataladmetadatamodel/common.py | 41 +++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 53dcab1..797e344 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -149,6 +149,31 @@ def get_top_nodes_and_metadata_root_record(
     return tree_version_list, uuid_set, metadata_root_record
 
 
+def _ensure_versioned_element(
+        version_list: VersionList,
+        primary_data_version: str,
+        prefix_path: MetadataPath,
+        metadata_root_record: MetadataRootRecord):
+    """
+    Ensure that the version list contains the given metadata root record object.
+    If the version list contained a separately loaded copy of the record,
+    modifications of the record would not be visible in the version list.
+    """
+    time_stamp = str(time.time())
+    if (primary_data_version, prefix_path) in version_list.versions_and_prefix_paths():
+        time_stamp, _, element = version_list.get_versioned_element(
+            primary_data_version,
+            prefix_path)
+        if element is metadata_root_record:
+            return
+
+    version_list.set_versioned_element(
+        primary_data_version=primary_data_version,
+        time_stamp=time_stamp,
+        prefix_path=prefix_path,
+        element=metadata_root_record)
+
+
 def get_metadata_root_record_from_top_nodes(
         tree_version_list: TreeVersionList,
         uuid_set: UUIDSet,
@@ -225,12 +250,12 @@ def get_metadata_root_record_from_top_nodes(
         else:
             root_mrr = dataset_tree.get_metadata_root_record(MetadataPath(""))
 
-        if auto_create and (root_dataset_version, prefix_path) not in root_uuid_version_list.versions_and_prefix_paths():
-            root_uuid_version_list.set_versioned_element(
+        if auto_create:
+            _ensure_versioned_element(
+                version_list=root_uuid_version_list,
                 primary_data_version=root_dataset_version,
-                time_stamp=str(time.time()),
                 prefix_path=prefix_path,
-                element=root_mrr)
+                metadata_root_record=root_mrr)
 
         prefix_path = MetadataPath("")
     else:
@@ -271,11 +296,11 @@ def get_metadata_root_record_from_top_nodes(
         metadata_root_record = dataset_tree.get_metadata_root_record(
             dataset_tree_path)
 
-    if auto_create and (primary_data_version, prefix_path) not in uuid_version_list.versions_and_prefix_paths():
-        uuid_version_list.set_versioned_element(
+    if auto_create:
+        _ensure_versioned_element(
+            version_list=uuid_version_list,
             primary_data_version=primary_data_version,
-            time_stamp=str(time.time()),
             prefix_path=prefix_path,
-            element=metadata_root_record)
+            metadata_root_record=metadata_root_record)
 
     return metadata_root_record
-- 
2.43.0


From f1e8cc02582dd5dc4d4da13962d54cec6cc0dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 20/30] fix: save metadata root records without dataset
 identifier or version

---
 .../mapper/gitmapper/metadatarootrecordmapper.py      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 2965c76..7c9b1a8 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -50,9 +50,11 @@ class MetadataRootRecordGitMapper(Mapper):
         else:
             file_tree = FileTree(realm=realm, reference=file_tree_reference)
 
+        dataset_identifier = json_object[Strings.DATASET_IDENTIFIER]
+
         MetadataRootRecord.__init__(
             metadata_root_record,
-            UUID(json_object[Strings.DATASET_IDENTIFIER]),
+            UUID(dataset_identifier) if dataset_identifier is not None else None,
             json_object[Strings.DATASET_VERSION],
             metadata,
             file_tree,
@@ -88,8 +90,11 @@ class MetadataRootRecordGitMapper(Mapper):
             add_blob_reference(dataset_level_metadata_reference.location)
 
         json_object = {
-            Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
-            Strings.DATASET_VERSION: str(mrr.dataset_version),
+            Strings.DATASET_IDENTIFIER: (
+                str(mrr.dataset_identifier)
+                if mrr.dataset_identifier is not None
+                else None),
+            Strings.DATASET_VERSION: mrr.dataset_version,
             Strings.DATASET_LEVEL_METADATA: dataset_level_metadata_reference.to_json_obj(),
             Strings.FILE_TREE: file_tree_reference.to_json_obj()}
 
-- 
2.43.0


From 0c8e7530df2c6d7c4aa7284b3571c2ed80eb4d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 21/30] fix: save containers of individually saved elements

---
 dataladmetadatamodel/mappableobject.py | 31 +++++++++++++++++++++++++-
 dataladmetadatamodel/mtreeproxy.py     |  4 ++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index f35f21a..d55ae86 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -5,6 +5,7 @@ from abc import (
 from contextlib import contextmanager
 from typing import (
     Iterable,
+    List,
     Optional,
 )
 
@@ -64,6 +65,10 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         self.reference = reference
         self.mapped = reference is None
 
+        # Locations of the sub-objects that are recorded in
+        # the stored version of this object.
+        self.stored_sub_locations = None
+
     @property
     def modifiable_sub_objects(self) -> Iterable["MappableObject"]:
         """
@@ -81,6 +86,28 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         # delegate to our subclasses
         return self.modifiable_sub_objects_impl()
 
+    def _get_sub_locations(self) -> List[Optional[str]]:
+        return [
+            sub_object.reference.location
+            if sub_object.reference is not None
+            else None
+            for sub_object in self.modifiable_sub_objects
+        ]
+
+    def is_saved_on(self, destination: str) -> bool:
+        """
+        In addition to the checks in the base class, check that the stored
+        version of this object refers to the current version of all
+        sub-objects. A sub-object might have been modified and written
+        out individually.
+        """
+        if not super().is_saved_on(destination):
+            return False
+        return (
+            not self.mapped
+            or self.stored_sub_locations is None
+            or self.stored_sub_locations == self._get_sub_locations())
+
     def read_in(self,
                 backend_type: str = "git"
                 ) -> "MappableObject":
@@ -120,6 +147,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             # Mark the object as mapped.
             self.mapped = True
+            self.stored_sub_locations = self._get_sub_locations()
 
         else:
 
@@ -198,13 +226,14 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         self.realm = destination_realm
         self.reference = reference
         self.set_saved_on(destination_realm)
+        self.stored_sub_locations = self._get_sub_locations()
 
         return self.reference
 
     def purge(self):
         if self.mapped:
 
-            if len(self.saved_on) == 0:
+            if not any(map(self.is_saved_on, self.saved_on)):
                 raise ValueError(
                     f"purge({self}): called with unsaved object: {self}")
 
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 19413de..89b69b4 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -50,6 +50,10 @@ class MTreeProxy:
     def __contains__(self, path: MetadataPath) -> bool:
         return self.mtree.get_object_at_path(path) is not None
 
+    @property
+    def reference(self) -> Optional[Reference]:
+        return self.mtree.reference
+
     def ensure_mapped(self) -> bool:
         return self.mtree.ensure_mapped()
 
-- 
2.43.0


From d8e6a613ea8321bf0d01f53db3f6a0a5bea20951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 22/30] fix: load text unchanged, including trailing and
 special line breaks

---
 .../mapper/gitmapper/gitbackend/subprocess.py  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 0a387fa..d1af3bc 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -29,9 +29,9 @@ def execute(arguments: Union[str, List[str]],
         stderr=subprocess.PIPE)
 
 
-def checked_execute(arguments: Union[str, List[str]],
-                    stdin_content: Optional[Union[str, bytes]] = None
-                    ) -> Tuple[List[str], List[str]]:
+def checked_run(arguments: Union[str, List[str]],
+                stdin_content: Optional[Union[str, bytes]] = None
+                ) -> Any:
 
     result = execute(arguments, stdin_content)
     if result.returncode != 0:
@@ -45,6 +45,14 @@ def checked_execute(arguments: Union[str, List[str]],
         error.stdout = result.stdout.decode()
         error.stderr = result.stderr.decode()
         raise error
+    return result
+
+
+def checked_execute(arguments: Union[str, List[str]],
+                    stdin_content: Optional[Union[str, bytes]] = None
+                    ) -> Tuple[List[str], List[str]]:
+
+    result = checked_run(arguments, stdin_content)
     return (
         result.stdout.decode().splitlines(),
         result.stderr.decode().splitlines())
@@ -65,8 +73,8 @@ def git_command_line(repo_dir: str,
 
 
 def git_text_result(cmd_line: Union[str, List[str]]):
-    result = checked_execute(cmd_line)[0]
-    return "\n".join(result)
+    # Do not split the result into lines, the content should not be changed.
+    return checked_run(cmd_line).stdout.decode()
 
 
 def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
-- 
2.43.0


From 3948ca7fdf410ecebb28977a7b0cb1e51b243fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 23/30] fix: save empty UUID sets

---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index d1af3bc..53761a1 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -158,10 +158,10 @@ def git_save_tree_node(repo_dir: str,
                        entry_set: Iterable[Tuple[str, str, str, str]]
                        ) -> str:
 
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
@@ -169,10 +169,10 @@ def git_save_tree_node(repo_dir: str,
 def git_save_tree(repo_dir: str,
                   entry_set: Iterable[Tuple[str, str, str, str]]
                   ) -> str:
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
-- 
2.43.0


From 3213395707e1cc0cb919f4b2017de80d3faf3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 24/30] fix: do not call git to save an empty write cache

---
 dataladmetadatamodel/mapper/gitmapper/gitblobcache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index a0fa835..a6ddae9 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -70,6 +70,9 @@ class GitBlobCache:
         def check_hash(hash: str, expected_hash: str):
             assert hash == expected_hash
 
+        if not self.cached_objects:
+            return
+
         file_list = []
         for index, (blob, expected_hash) in enumerate(self.cached_objects):
             temp_file_path = self.temp_dir_path / str(index)
-- 
2.43.0


From f9be2a62e5d3f6bfde96cfdfea70443c24e704bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 25/30] fix: do not replace a store of object references that
 could not be read

---
 .../mapper/gitmapper/gitbackend/subprocess.py    | 16 ++++++++++++++++
 .../mapper/gitmapper/objectreference.py          |  9 ++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 53761a1..e78ee9c 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -185,6 +185,22 @@ def git_update_ref(repo_dir: str, ref_name: str, location: str) -> None:
     checked_execute(cmd_line)
 
 
+def git_ref_exists(repo_dir: str, ref_name: str) -> bool:
+    """
+    Check whether a repository is known to have a reference,
+    even if the object, that the reference points to, can not
+    be read.
+    """
+    if Reference.is_remote(repo_dir):
+        cmd_line = ["git", "ls-remote", "--exit-code", repo_dir, ref_name]
+    else:
+        cmd_line = git_command_line(
+            repo_dir,
+            "rev-parse",
+            ["--verify", "--quiet", ref_name])
+    return execute(cmd_line).returncode == 0
+
+
 def git_delete_ref(repo_dir: str, ref_name: str) -> None:
     cmd_line = git_command_line(
         repo_dir,
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index dd96007..9d61f43 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -92,7 +92,10 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 def flush_object_references(realm: Path):
     global cached_object_references
 
-    from .gitbackend.subprocess import git_update_ref
+    from .gitbackend.subprocess import (
+        git_ref_exists,
+        git_update_ref,
+    )
     from ..gitmapper.treeupdater import (
         PathInfo,
         _get_dir,
@@ -120,6 +123,10 @@ def flush_object_references(realm: Path):
             try:
                 root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)
             except RuntimeError:
+                # Only start with an empty store if there is none. A store
+                # that could not be read should not be replaced.
+                if git_ref_exists(str(realm), GitReference.OBJECT_REFERENCES.value):
+                    raise
                 root_entries = []
 
             tree_hash = add_paths(realm, path_infos, root_entries)
-- 
2.43.0


From 9085c4eea425fcc400a8703deda3d36f35f9cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 26/30] fix: do not regard top-level elements that could not be
 read as missing

---
 dataladmetadatamodel/common.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 797e344..d10d5fa 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -77,9 +77,18 @@ def get_top_level_metadata_objects(
 
 def _read_in_if_exists(mappable_object: MappableObject
                        ) -> Optional[MappableObject]:
+    from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
+        git_ref_exists)
+
     try:
         return mappable_object.read_in()
     except RuntimeError:
+        # An element that exists, but could not be read, is not missing.
+        # If it was regarded as missing, it would be replaced by an empty one.
+        if git_ref_exists(
+                mappable_object.realm,
+                mappable_object.reference.location):
+            raise
         return None
 
 
-- 
2.43.0


From e0282d06f4bc967e6ebd8ccc664fae30681110db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 27/30] fix: keep the saved states of a file tree if its cache
 cannot be flushed

---
 dataladmetadatamodel/mtreeproxy.py | 32 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 89b69b4..966e9bd 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -2,6 +2,7 @@ from typing import (
     cast,
     Any,
     Iterable,
+    List,
     Optional,
     Tuple
 )
@@ -76,6 +77,7 @@ class MTreeProxy:
         cache_destination = destination or self.mtree.realm
         if isinstance(self, FileTree):
             MetadataGitMapper.cache_realm(cache_destination)
+            saved_states = self._get_saved_states(self.mtree)
 
         try:
             reference = self.mtree.write_out(destination,
@@ -86,27 +88,41 @@ class MTreeProxy:
             # completely. Objects that were written up to this point
             # are marked as saved, i.e. they have to be persisted.
             if isinstance(self, FileTree):
-                self._flush_cache(cache_destination)
+                self._flush_cache(cache_destination, saved_states)
 
         if not reference.is_none_reference():
             add_tree_reference(reference.location)
         return reference
 
-    def _flush_cache(self, realm: str):
+    @staticmethod
+    def _flush_cache(realm: str, saved_states: List[Tuple]):
         try:
             MetadataGitMapper.flush_realm(realm)
         except BaseException:
-            # The content of the cache is lost, ensure that
-            # everything is written again in the next attempt.
-            self._set_unsaved_recursive(self.mtree)
+            # The content of the cache is lost. Nothing was saved on
+            # the realm, ensure that everything is written again in
+            # the next attempt.
+            for mappable_object, saved_on, *location in saved_states:
+                mappable_object.saved_on = saved_on
+                (mappable_object.realm,
+                 mappable_object.reference,
+                 mappable_object.stored_sub_locations) = location
             raise
 
     @staticmethod
-    def _set_unsaved_recursive(mappable_object: MappableObject):
+    def _get_saved_states(mappable_object: MappableObject) -> List[Tuple]:
+        saved_states = [(
+            mappable_object,
+            set(mappable_object.saved_on),
+            mappable_object.realm,
+            mappable_object.reference,
+            mappable_object.stored_sub_locations
+        )]
         if mappable_object.mapped:
-            mappable_object.set_unsaved()
             for sub_object in mappable_object.modifiable_sub_objects:
-                MTreeProxy._set_unsaved_recursive(sub_object)
+                saved_states.extend(
+                    MTreeProxy._get_saved_states(sub_object))
+        return saved_states
 
     def purge(self):
         return self.mtree.purge()
-- 
2.43.0


From 5cca77c6b5c48985868a36ced4c387f88f5197a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 28/30] fix: reading an empty object in again keeps it saved

The locations of the sub-objects were not updated when a none-reference
was read in. An object that became empty and was saved and purged was
not regarded as saved afterwards, and leaving ensure_mapped raised.
---
 dataladmetadatamodel/mappableobject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index d55ae86..bcda735 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -126,6 +126,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 logger.warning(f"read_in({self}): None-reference in {self}")
                 self.purge_impl()
                 self.mapped = True
+                self.stored_sub_locations = self._get_sub_locations()
                 return self
 
             # Ensure that the object is saved on the given realm
-- 
2.43.0


From 824800662034850520bd506ebc3c4b4cb753b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:02 +0000
Subject: [PATCH 29/30] fix: do not regard outdated versions on other
 destinations as saved

If a part of an object was modified and saved individually on one
destination, and the object was saved on a second destination, the
object was regarded as saved on both destinations, although the version
on the first destination was outdated. Saving it there was skipped,
which returned a reference that the first destination does not have.
---
 dataladmetadatamodel/mappableobject.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index bcda735..e258948 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -223,11 +223,16 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"write_out({self}): object {self} has no valid " \
             f"reference: {reference}"
 
-        # Update the state of the object only if it was saved.
+        # Update the state of the object only if it was saved. Versions
+        # that were stored on other destinations before are outdated, if
+        # they refer to other versions of the sub-objects.
+        sub_locations = self._get_sub_locations()
+        if self.stored_sub_locations != sub_locations:
+            self.set_unsaved()
         self.realm = destination_realm
         self.reference = reference
         self.set_saved_on(destination_realm)
-        self.stored_sub_locations = self._get_sub_locations()
+        self.stored_sub_locations = sub_locations
 
         return self.reference
 
-- 
2.43.0


From dbb73c7634da6dba09e0d6b1eb2b937f49bbc014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:09 +0000
Subject: [PATCH 30/30] fix: write cached contents that are bytes,
 independently of the encoding of the locale

---
 dataladmetadatamodel/mapper/gitmapper/gitblobcache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index a6ddae9..5f27ef5 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -76,8 +76,8 @@ class GitBlobCache:
         file_list = []
         for index, (blob, expected_hash) in enumerate(self.cached_objects):
             temp_file_path = self.temp_dir_path / str(index)
-            with temp_file_path.open("tw") as f:
-                f.write(blob)
+            with temp_file_path.open("wb") as f:
+                f.write(blob.encode() if isinstance(blob, str) else blob)
             file_list.append(str(temp_file_path))
 
         hash_values = git_save_file_list(self.realm, file_list)
-- 
2.43.0

